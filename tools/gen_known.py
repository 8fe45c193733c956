"""Writes known_findings.json (committed; never written by a check)."""
import json, os
F = [
 dict(id="F2a", property="C01", what="a callback that disconnects itself while the signal is being emitted makes the next connected callback be skipped (live iteration over SignalInstance._slots)",
      input="connect a (disconnects itself), then b; emit: b is not called", why_not_repaired="iterating over a snapshot makes callbacks of owners that die during the emission raise ReferenceError; not a small change"),
 dict(id="F2b", property="C01", what="a callback that connects a callback of higher priority while the signal is being emitted is itself called a second time (live iteration over SignalInstance._slots)",
      input="connect a (connects another with priority 5 on its first call); emit: a runs twice", why_not_repaired="as F2a"),
 dict(id="F19", property="C03", what="a partial is `in` a signal when only the plain function it wraps is connected (StrongFunction keys ignore the bound arguments)",
      input="sig.connect(g); partial(g, 1) in sig -> True (and the other way round)", why_not_repaired="WeakCallback keys are compared across kinds and are public through repr/slot_repr; including bound arguments would need them to be hashable/comparable and changes which connections unique/disconnect match"),
 dict(id="F20", property="C03", what="two different functions bound as methods of the same object under one __name__ are the same callback for `in`/disconnect",
      input="k = K(); a, b = types.MethodType(lambda self: 1, k), types.MethodType(lambda self: 2, k); sig.connect(a); b in sig -> True", why_not_repaired="the key names the method by its function name; decorated methods rely on it"),
 dict(id="F24", property="C18", what="copy.copy of an instance of an evented dataclass (plain class) shares the SignalGroup cached in the instance's __dict__ with the original",
      input="a = DC(); a.events; b = copy.copy(a); b.x = 5 -> a's listeners hear it", why_not_repaired="the group is cached in the instance dict by design; repairing it needs a __copy__/__reduce__ hook on user classes"),
 dict(id="F27", property="C09", what="copy.copy of an instance whose signal was accessed shares the SignalInstance cached in the instance's __dict__",
      input="a = K(); a.sig; b = copy.copy(a); b.sig is a.sig", why_not_repaired="same cause as F24: the cache lives in the instance dict; a lookup-time owner check would break slotted and subclass caching"),
 dict(id="F25", property="C20", what="a call that arrives between the return of the timer's function and the end of the timer thread is lost",
      input="throttled function, call while Timer._start has returned but the timer thread is still alive", why_not_repaired="needs the throttler to track its own state under a lock instead of Timer.is_alive(); a rewrite, not a small change"),
 dict(id="F21", property="C21", what="an unpickled SignalGroup has a relay without `_signals` (members no longer reach the group)",
      input="g2 = pickle.loads(pickle.dumps(g)); g2.all._signals -> AttributeError", why_not_repaired="SignalInstance.__getstate__ deliberately keeps only a fixed list of attributes; a group pickle format is a design decision"),
 dict(id="F28", property="C21", what="deepcopy of a SelectableEventedList keeps items selected that are removed from the copy",
      input="m = deepcopy(SelectableEventedList with selection); m.remove(selected item); m.selection still has it", why_not_repaired="deepcopy drops the connection between list and selection; needs a __deepcopy__/__setstate__ protocol for containers"),
 dict(id="F29", property="C21", what="deepcopy of EventedList(child_events=True) does not listen to its children",
      input="m = deepcopy(EventedList([child], child_events=True)); m[0].sig.emit() -> m.events.child_event silent", why_not_repaired="same cause as F28"),
]
X = [
 ("C05", "b2c6cce", "latest-only: a re-emission made by a callback after an inner emission ended was cut short"),
 ("C11", "e03a105", "SignalGroup.block()/unblock() twice or nested lost the members' own blocked state"),
 ("C11", "6a78c94", "pausing a group did not hold emissions of its members"),
 ("C10", "a4cc096", "SignalGroup.disconnect(missing_ok=False) raised for a callback connected to members only"),
 ("C16", "811580e", "EventedSet operations with repeated items, iterators, the set itself or no argument"),
 ("C13", "f5aae4d", "EventedList: del with an out-of-range index emitted removing before failing"),
 ("C13", "f8e66f5", "EventedList.__getitem__ of an element that is itself a list returned an evented copy"),
 ("C14", "0ebcc7b", "EventedList.move/move_multiple with negative or out-of-range sources"),
 ("C14", "bc7d9b4", "EventedList.move_multiple did not keep the order given for some inputs"),
 ("C22", "1fa0dfa", "EventedObjectProxy: setting a new key raised KeyError"),
 ("C21", "d999a3d", "pickling lost the description and the priority/bound arguments of strong callbacks"),
 ("C07", "29aa052", "resume() delivered held emissions twice when a callback raised or emitted"),
 ("C18", "8be0f44", "two SignalGroupDescriptors on one class shared their groups"),
 ("C19", "6a22120", "EventedModel emitted the unvalidated value"),
 ("C13", "5e4471e", "EventedList(child_events=True) did not follow children assigned to an index"),
 ("C08", "f287d6e", "connect(on_ref_error=...) was ignored while checking the number of arguments"),
 ("C09", "6147dd9", "a Signal declared under another attribute name than its own was not cached"),
 ("C14", "8bacce8", "EventedList.move/move_multiple with a destination out of range"),
 ("C17", "db78d39", "a refused Selection.active lost the active item"),
 ("C19", "8ce3574", "subclasses of an EventedModel had no signals for inherited property setters"),
 ("C19", "de088b9", "EventedModel.reset did not restore factories' and nested defaults"),
 ("C19", "5ab668e", "EventedModel.update rejected None for an optional nested model"),
 ("C18", "36ffc5f", "a refused assignment to an evented field emitted"),
 ("C20", "42196aa", "calls right after cancel() or creation of a throttled function were lost"),
 ("C20", "29b5bd7", "a throttled function that raised did not wait for its interval"),
 ("C21", "d627851", "copy.copy of a SignalGroup shared the original's signals"),
 ("C21", "0bc0e13", "copies of an EventedModel shared the original's events"),
 ("C23", "c77fa58", "monitor_events reported a signal under two names twice and left connections behind when the scan failed"),
 ("C23", "9160a75", "monitor_events() without an object missed emit_fast and the emissions a paused signal makes on resume"),
 ("C18", "9a8a6da", "signal_aliases of a SignalGroupDescriptor(collect_fields=False) were written into the given group class and reached other classes using it"),
 ("C18", "149f074", "aliased fields of an evented subclass emitted nothing when its base had been patched without aliases"),
 ("C18", "e9ceda7", "a class with two evented namespaces emitted field changes only on the one patched first"),
 ("C18", "50abc94", "a subclass with its own __setattr__ calling super() emitted each change twice once both classes were patched"),
 ("C17", "a32aad7", "discard/difference_update/... on a Selection whose remaining item had been replaced in the list raised ValueError and left no active item"),
 ("C17", "64b2d5e", "setting the selection of a SelectableEventedList to an iterator selected nothing new"),
 ("C18", "f64943a", "a class created with the id of a dead class that inherited the same SignalGroupDescriptor was given its group and never patched: its fields emitted nothing"),
 ("C24", "949828d", "emitting while another thread was inside an emission nested to the recursion limit raised RecursionError at once and was lost"),
 ("C21", "844780b", "a signal with queued re-emission that was copied or pickled during an emission never emitted again; copy.copy shared the held arguments"),
 ("C17", "1184c02", "select_next/select_previous raised ValueError when the current item had been removed from the list and others were still selected"),
 ("C06", "df5ddb7", "an error in a callback surfaced as another exception when the emitter's __bool__, the exception's str or the repr of queued arguments failed"),
 ("C19", "fcf480a", "assigning a model field named like an attribute of SignalGroup (connect, all, ...) emitted nothing, or on the wrong signal, or raised"),
 ("C10", "12fed36", "declaring a group that inherits a Signal of a reserved name from a class outside SignalGroup raised AttributeError, or replaced the group's attribute"),
 ("C18", "f165150", "operators in __eq_operators__ of a class, or given to another descriptor of the class, were replaced by guesses from the field's type"),
 ("C18", "a687f3b", "equality_operators given to SignalGroupDescriptor(collect_fields=False) were ignored"),
 ("C18", "6ed779b", "signal_aliases given to SignalGroupDescriptor(collect_fields=False) as a Mapping that is no dict were ignored"),
 ("C18", "06597c6", "operators of a subclass were written into the __eq_operators__ it inherits and used for its base class as well"),
 ("C16", "0835270", "an OrderedSet or EventedOrderedSet used as a pydantic field lost the order of its items"),
 ("C23", "6bb4067", "monitor_events took a logger that is a bound method, or has further parameters with defaults, for an old-style one"),
 ("C02", "9948c0d", "a connected partial of setattr or __setitem__ with a bound value or a keyword argument stored something else than the partial itself"),
 ("C07", "ff03445", "resume() with a reducer without a signature (the builtin max) raised ValueError and lost what was held"),
]
json.dump({"findings": F, "fixed": [f"fixed: property={p} {c} {w}" for p, c, w in X]},
          open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json"), "w"), indent=1)
