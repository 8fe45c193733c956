"""C17 scenarios: histories of selection operations with a parent container and of selectable-list operations, invariants and descriptions
checked after every operation, active events recorded."""
import itertools

from psygnal.containers import Selection
from psygnal.containers._selectable_evented_list import SelectableEventedList

BOUND = "exhaustive: all histories of <=2 operations (about 45) on lists of 0..3 items; random: <=12 operations, <=5 items"


def inv(s, log, state, op, parent):
    act = s.active
    want = next(iter(s)) if len(s) == 1 else None
    if act != want:
        return f"{op}: selection {list(s)} has active {act!r}"
    if state["active"] != act and not log:
        return f"{op}: active changed from {state['active']!r} to {act!r} without event"
    if log and log[-1] != act:
        return f"{op}: last active event {log[-1]!r}, active is {act!r}"
    if any(x not in parent for x in s):
        return f"{op}: selected items outside the parent"
    if s.events.items_changed._is_paused:
        return f"{op}: events left paused"
    state["active"] = act
    del log[:]
    return None


def run_sel(sc):
    parent, left = list(range(6)), []
    s = Selection(sc["init"], parent=parent)
    log, chg = [], []
    state = {"active": s.active}
    s.events.active.connect(log.append)
    s.events.items_changed.connect(lambda a, r: chg.append((a, r)))
    m = inv(s, log, state, "init", parent)
    if m:
        return m
    for op in sc["ops"]:
        del chg[:]
        before = list(s)
        if op[0] == "leave":  # an item leaves the parent unnoticed (as when an item of a list is replaced)
            if op[1] in parent:
                parent.remove(op[1])
                left.append(op[1])
            continue
        exp, wexc = None, None
        k = op[0]
        arg = op[1] if len(op) > 1 else None
        args = arg if isinstance(arg, list) else [arg]
        if k == "active":
            exp = [] if arg is None else [arg]
            if arg == s.active:
                exp = before
        elif k == "only" or k == "toggle" or k == "add":
            exp = [arg] if k == "only" else [x for x in before if x != arg] + ([] if arg in before and k == "toggle" else [arg])
        elif k == "clear":
            exp = []
        elif k == "update":
            exp = list(dict.fromkeys(before + args))
        elif k == "discard":
            exp = [x for x in before if x != arg]
        elif k == "remove":
            exp = [x for x in before if x != arg]
            wexc = None if arg in before else KeyError
        elif k == "inter":
            exp = [x for x in before if x in args]
        elif k == "symm":
            exp = [x for x in before if x not in args] + [x for x in args if x not in before]
        elif k == "diff":
            exp = [x for x in before if x not in args]
        adds = [x for x in (args if k in ("active", "only", "toggle", "add", "update", "symm") else []) if x is not None and (x not in before or k in ("only", "add", "update") or k == "active" and x != s.active)]
        if any(x not in parent for x in adds):
            wexc = ValueError
        exc = None
        try:
            if k == "active":
                s.active = arg
            elif k == "only":
                s.select_only(arg)
            elif k == "toggle":
                s.toggle(arg)
            elif k == "clear":
                s.clear(**({"keep_current": True} if arg else {}))
            elif k == "update":
                s.update(arg)
            elif k == "inter":
                s.intersection_update(arg)
            elif k == "symm":
                s.symmetric_difference_update(arg)
            elif k == "diff":
                s.difference_update(arg)
            else:
                getattr(s, k)(arg)
        except Exception as e:
            exc = e
        if (type(exc) if exc else None) is not wexc:
            return f"{op} on {before}: raised {exc!r}, expected {wexc}"
        if wexc is None and set(s) != set(exp):
            return f"{op} on {before}: selected {list(s)}, expected {exp}"
        if wexc is None and (set(before) != set(exp)) != bool(chg):
            return f"{op} on {before}: items_changed {chg}"
        cur = set(before)
        for a, r in chg:
            cur = (cur | set(a)) - set(r)
        if cur != set(s):
            return f"{op} on {before}: items_changed {chg} replays to {cur}, selection {set(s)}"
        m = inv(s, log, state, op, parent + left)
        if m:
            return m
    return None


def run_list(sc):
    items = [f"x{i}" for i in range(6)]
    lst = SelectableEventedList()
    lst._activate_on_insert = bool(sc.get("aoi", 1))
    for i in sc["init"]:
        lst.append(items[i])
    s = lst.selection
    log = []
    state = {"active": s.active}
    s.events.active.connect(log.append)
    m = inv(s, log, state, "init", lst)
    if m:
        return m
    if s._parent is not lst:
        return "selection's parent"
    for op in sc["ops"]:
        before, bsel, bcur = list(lst), list(s), s._current
        k = op[0]
        n = len(before)
        exp = None
        ret = exc = None
        try:
            if k == "append":
                lst.append(items[op[1]])
            elif k == "insert":
                lst.insert(op[1], items[op[2]])
            elif k == "extend":
                lst.extend([items[i] for i in op[1]])
            elif k == "pop":
                lst.pop(op[1])
            elif k == "remove":
                lst.remove(items[op[1]])
            elif k == "del":
                del lst[slice(*op[1])]
            elif k == "clear":
                lst.clear()
            elif k == "all":
                lst.select_all()
            elif k == "none":
                lst.deselect_all()
            elif k == "next":
                lst.select_next(*op[1:])
            elif k == "prev":
                lst.select_previous(*op[1:])
            elif k == "rmsel":
                ret = lst.remove_selected()
            elif k == "sel":
                lst.selection = [items[i] for i in op[1]]
            elif k == "selgen":
                lst.selection = (items[i] for i in op[1])
            elif k == "add":
                s.add(items[op[1]])
            elif k == "active":
                s.active = items[op[1]] if op[1] is not None else None
            elif k == "move":
                lst.move(op[1], op[2])
            elif k == "toggle":
                s.toggle(items[op[1]])
        except (ValueError, IndexError) as e:
            exc = e
        sel = set(s)
        if k in ("append", "insert", "extend") and exc is None and lst._activate_on_insert:
            new = {"append": lambda: items[op[1]], "insert": lambda: items[op[2]], "extend": lambda: items[op[1][-1]] if op[1] else None}[k]()
            exp = {new} if new is not None else set(bsel)
        elif k in ("append", "insert", "extend", "move"):
            exp = set(bsel)
        elif k in ("pop", "remove", "del", "clear"):
            after = list(lst)
            gone = [x for x in before if before.count(x) != after.count(x)]
            exp = set(bsel) - set(gone)
        elif k == "all":
            exp = set(before)
        elif k == "none":
            exp = set()
        elif k in ("next", "prev"):
            step, expand, wrap = (op[1:] + [1, False, False][len(op) - 1:]) if k == "next" else [-1] + (op[1:] + [False, False][len(op) - 1:])
            if n == 0:
                exp = set(bsel)
            else:
                if exc is not None:
                    return f"{op} on {before}, selected {bsel}, current {bcur!r}: {exc!r}"
                known = bsel and bcur in before         # there is a current item, and it is (still) in the list
                idx = before.index(bcur) + step if known else -1 if step > 0 else 0
                if exp is None:
                    inr = 0 <= idx < n
                    idx = idx % n if wrap else idx if inr else (n - 1 if step > 0 else 0)
                    if not known and wrap:
                        idx = (n - 1 if step > 0 else 0)
                    nxt = before[idx]
                    exp = set(bsel) | {nxt} if expand else {nxt}
                    if s._current != nxt and not (not expand and nxt == state["active"]):
                        return f"{op} on {before}, selected {bsel}, current {bcur!r}: current is {s._current!r}, expected {nxt!r}"
        elif k == "rmsel":
            if exc is None:
                if set(ret) != set(bsel) or len(ret) != len(bsel):
                    return f"{op}: returned {ret}, selected were {bsel}"
                rest = list(before)
                for x in bsel:
                    rest.remove(x)
                if list(lst) != rest:
                    return f"{op}: list {list(lst)}, expected {rest}"
                if rest and len(set(before)) == len(before):
                    if len(sel) != 1 or not sel <= set(rest):
                        return f"{op} on {before} sel {bsel}: selected {sel}"
                    cand = [rest[max(0, min(before.index(x), len(rest)) - 1)] for x in bsel]
                    exp = sel if not bsel or True else cand
                else:
                    exp = "any"
        elif k in ("sel", "selgen"):
            tgt = [items[i] for i in op[1]]
            if all(x in before for x in tgt):
                exp = set(tgt)
                if exc:
                    return f"{op}: {exc!r}"
            elif not isinstance(exc, ValueError):
                return f"{op}: item outside the list accepted"
        elif k in ("add", "active", "toggle") and op[1] is not None and items[op[1]] not in before:
            if not isinstance(exc, ValueError):
                return f"{op} on {before}: item outside the list accepted"
        elif k == "add":
            exp = set(bsel) | {items[op[1]]}
        elif k == "toggle":
            exp = set(bsel) ^ {items[op[1]]}
        elif k == "active":
            exp = {items[op[1]]} if op[1] is not None else set()
            if op[1] is None and state["active"] is None or op[1] is not None and items[op[1]] == state["active"]:
                exp = set(bsel)
        if exp is not None and exp != "any" and exc is None and sel != exp:
            return f"{op} on {before} selected {bsel} current {bcur!r}: selected {sel}, expected {exp}"
        m = inv(s, log, state, op, lst)
        if m:
            return m
    return None


def run(sc):
    return run_sel(sc) if sc["kind"] == "sel" else run_list(sc)


def sel_alpha():
    out = [["clear"], ["clear", 1], ["active", None], ["update", [1, 2]], ["update", [1, 99]], ["inter", [1, 3]], ["symm", [1, 2]], ["symm", [4]], ["diff", [1]], ["update", []]]
    for i in (0, 1):
        out.append(["leave", i])
    for i in (0, 1, 99):
        for k in ("active", "only", "toggle", "add", "discard", "remove"):
            out.append([k, i])
    return out


def list_alpha():
    out = [["all"], ["none"], ["rmsel"], ["clear"], ["del", [0, 2, None]], ["del", [None, None, -1]], ["extend", [4, 5]], ["extend", []], ["insert", 0, 3], ["append", 5], ["sel", [0]], ["sel", [0, 1]], ["selgen", [1, 0]], ["sel", []],
           ["sel", [5]], ["move", 0, 2], ["active", None]]
    for i in (0, -1, 1):
        out += [["pop", i]]
    for i in (0, 1, 5):
        out += [["remove", i], ["add", i], ["toggle", i], ["active", i]]
    for st in (1, -1, 2):
        for e in (False, True):
            for w in (False, True):
                out.append(["next", st, e, w])
    out += [["prev"], ["prev", True], ["prev", False, True]]
    return out


def exhaustive(tier):
    A = sel_alpha()
    for init in ([], [0], [0, 1], [1, 2, 3]):
        for r in (1, 2):
            for ops in itertools.product(A, repeat=r):
                yield {"kind": "sel", "init": init, "ops": list(ops)}
    B = list_alpha()
    for init in ([], [0], [0, 1], [0, 1, 2]):
        for aoi in (1, 0):
            for r in (1, 2) if len(init) != 1 else (1,):
                for ops in itertools.product(B, repeat=r):
                    yield {"kind": "list", "init": init, "ops": list(ops), "aoi": aoi}


    for init in ([0, 1, 2, 3], [0, 1, 2]):           # several selected, the current item leaves the list
        for aoi in (1, 0):
            for first in (["all"], ["sel", [1, 2, 0]], ["sel", [0, 1, 2]]):
                for gone in (["pop", 0], ["pop", -1], ["pop", 1], ["del", [0, 2, None]]):
                    for nx in B:
                        if nx[0] in ("next", "prev", "rmsel", "none"):
                            yield {"kind": "list", "init": init, "ops": [first, gone, nx], "aoi": aoi}


def random_scenario(rng):
    if rng.random() < 0.4:
        A = sel_alpha()

        def sub(o):
            o = list(o)
            if len(o) > 1 and isinstance(o[1], int) and o[0] != "clear":
                o[1] = rng.choice([0, 1, 2, 3, 4, 5, 99])
            elif len(o) > 1 and isinstance(o[1], list):
                o[1] = [rng.randint(0, 6) for _ in range(rng.randint(0, 4))]
            return o
        return {"kind": "sel", "init": rng.sample(range(6), rng.randint(0, 4)), "ops": [sub(rng.choice(A)) for _ in range(rng.randint(1, 12))]}
    B = list_alpha()
    return {"kind": "list", "init": rng.sample(range(6), rng.randint(0, 5)), "ops": [rng.choice(B) for _ in range(rng.randint(1, 12))], "aoi": rng.choice([1, 1, 0])}
