"""Writes /verif/properties.jsonl (the committed file is the output of this script)."""
import json, pathlib

P = []


def p(id, title, statement, over, text, why, files, mechanism, state=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": ["src/psygnal/" + f for f in files],
                    "state": [{"name": n, "meaning": m} for n, m in state],
                    "mechanism": [{"name": m.strip(), "where": "src/psygnal/" + files[0]}
                                  for m in mechanism.split(";")]},
    })


p("C01", "Every emission reaches every connected callback once, in priority order",
  "Emitting a signal calls every connected callback exactly once, highest priority first and in connection order among equal priorities, and all of these calls have returned when emit() returns. This holds after any history of connects, disconnects and earlier emissions, and a callback that connects or disconnects callbacks while it runs does not make another, still connected callback be skipped or called twice.",
  ["inputs", "histories"], "every list of callbacks, every assignment of integer priorities, every earlier history of connections and emissions",
  "The order depends on the whole history of priorities ever used; tests connect two to five callbacks in a couple of fixed orders and never check the list after mixed connects, disconnects and priority changes.",
  ["_signal.py"], "priority-ordered insertion in SignalInstance._append_slot; the emit loops _run_emit_loop_immediate/_queued/_latest_only and emit_fast iterate over _slots",
  [("SignalInstance._slots", "connected callbacks, non-increasing priority, stable"), ("SignalInstance._priority_in_use", "whether any priority other than 0 may be in the list")])

p("C02", "Callbacks receive exactly the emitted arguments they accept",
  "A callback is called with its own bound arguments (those of a partial or curried function) followed by the emitted arguments, cut to the number of positional arguments it accepts or to an explicit max_args, in order and unmodified. Attribute and item bindings store the single emitted value (or the tuple, when there is not exactly one) on the bound object under the bound name and nowhere else.",
  ["inputs"], "every emitted argument tuple (any length), every callable kind, every maximum number of arguments",
  "Each callable kind has its own code path; the tests sample a few (kind, count) combinations and mostly with zero, one or two arguments.",
  ["_weak_callback.py", "_signal.py"], "the cb()/__call__ methods of StrongFunction, WeakFunction, WeakMethod, WeakBuiltin, WeakSetattr, WeakSetitem; weak_callback dispatch; _acceptable_posarg_range",
  [("WeakCallback._max_args", "maximum number of emitted arguments passed, or None for all")])

p("C03", "Connect and disconnect keep exact books",
  "After any sequence of connect and disconnect calls, len(signal) is the number of live connections and `cb in signal` tells whether an equal callback is connected. A connect adds one entry, except that with unique=True nothing changes and with unique='raise' ValueError is raised when the callback is connected already; disconnect(cb) removes exactly one entry for cb, the earliest in calling order, disconnect() removes all, and an unknown callback is ignored or, with missing_ok=False, reported by ValueError without changing anything.",
  ["inputs", "histories"], "every history of connect/disconnect/connect_setattr/connect_setitem calls and options",
  "Bookkeeping errors show only after particular sequences (duplicates, mixed kinds, disconnecting a missing callback); tests run one or two steps of each.",
  ["_signal.py", "_weak_callback.py"], "SignalInstance.connect, disconnect, _slot_index, _remove_slot, _try_discard, connect_setattr/_setitem and their disconnects; WeakCallback.__eq__ on _key",
  [("SignalInstance._slots", "one entry per live connection")])

p("C04", "Incompatible callbacks and emissions are rejected up front",
  "With argument checking on, connecting is refused with an error exactly when the callback requires more positional arguments than the signal declares or has a required keyword-only argument (and, with type checking on, when an annotated parameter type is not a supertype-compatible match), and a refused connect leaves the signal unchanged. With check_nargs or check_types, emit raises TypeError exactly when the arguments do not bind to, or do not match the types of, the declared signature, and then no callback is called and nothing is queued.",
  ["inputs"], "every callback signature, every declared signature, every emitted argument tuple",
  "The accepted range is a fold over an arbitrary parameter list; tests sample about a dozen signatures.",
  ["_signal.py"], "SignalInstance._check_nargs, _acceptable_posarg_range, _parameter_types_match, _is_subclass, connect and the head of emit")

p("C05", "Re-emission follows the declared mode",
  "When callbacks emit the signal they are being called for, then in immediate mode each nested emission is delivered to all callbacks before the outer one continues, and in queued mode all emissions are delivered in the order they were emitted, each to all callbacks before the next one starts. In latest-only mode a nested emission is delivered at once and the remaining callbacks of every outer emission are never called with the older value, while a later emission, nested or not, is always delivered in full unless superseded itself.",
  ["histories", "inputs"], "every finite pattern of nested emissions by the callbacks, every number of callbacks, repeated emissions on the same signal",
  "The pattern of nesting is unbounded; tests check one fixed ping-pong pattern per mode, at most two levels deep and only once per signal.",
  ["_signal.py"], "_run_emit_loop and the three inner loops, _emit_queue, _recursion_depth and _max_recursion_depth",
  [("SignalInstance._emit_queue", "argument tuples not yet delivered"), ("SignalInstance._recursion_depth", "number of emit loops active for this signal"), ("SignalInstance._max_recursion_depth", "deepest loop entered since the current one was")])

p("C06", "A failing callback surfaces as EmitLoopError and leaves the signal usable",
  "An exception raised by a callback stops that emission and reaches the caller of emit as EmitLoopError whose cause is the original exception (RecursionError stays RecursionError, and an EmitLoopError from a nested emission is passed on). Afterwards the signal is as if no emission were in progress: nothing is left queued, the current emitter is what it was before, and the next emission is delivered in full.",
  ["fault_sequences", "histories"], "every callback position and every exception type, every nesting depth and re-emission mode, including exceptions that are not Exception subclasses",
  "A fault can occur at each call of each callback at each depth; tests raise from one callback at one depth and do not check the signal's state for each mode afterwards.",
  ["_signal.py", "_exceptions.py"], "the except/finally clauses of _run_emit_loop and emit_fast; Signal._emitting; emit_queued",
  [("Signal._current_emitter", "signal whose callbacks are being called")])

p("C07", "Blocking drops, pausing holds, resuming replays once and in order",
  "While a signal is blocked nothing emitted is delivered or remembered; while it is paused nothing is delivered, and resuming delivers every argument tuple emitted meanwhile exactly once in order, or one emission of the reducer's result. Leaving the blocked() or paused() context restores the state from before entering it, also when contexts are nested or left by an exception, and nothing held is ever delivered twice, even if a callback raises during resume.",
  ["inputs", "histories", "fault_sequences"], "every number of held emissions, every reducer, every nesting of contexts and every failing callback position",
  "Tests hold at most a handful of emissions and never let a callback fail while resuming or inspect the queue afterwards.",
  ["_signal.py"], "emit, emit_fast, block, unblock, pause, resume, _SignalBlocker, _SignalPauser",
  [("SignalInstance._args_queue", "argument tuples held while paused"), ("SignalInstance._is_blocked", "blocked flag"), ("SignalInstance._is_paused", "paused flag")])

p("C08", "Connections do not keep owners alive and dead ones disappear",
  "Connecting a bound method, a callable object or an attribute/item binding keeps no strong reference to its owner, and when the owner dies exactly its own connections disappear, others staying untouched, and it is never called again; plain functions and partials of them are kept alive. An owner that cannot be weakly referenced is held strongly instead, or refused when the caller asked for an error.",
  ["inputs", "histories"], "every callable kind, every set of other connections, every moment of the owner's death outside an emission",
  "Which entries vanish depends on what else is connected and in which order owners die; tests kill one owner of one connection.",
  ["_weak_callback.py", "_signal.py"], "weak_callback dispatch, WeakCallback._try_ref, _kill_and_finalize, SignalInstance._try_discard",
  [("WeakCallback._alive", "finalizer has not run")])

p("C09", "Each instance has its own signals",
  "Accessing a signal declared on a class through an instance always returns the same signal object for that instance, bound to it and carrying the declared signature, name and options, and never one belonging to another instance or another declaration. Connecting to or emitting from it never affects another instance, and the class-level declaration stays as it was.",
  ["inputs", "histories"], "every number of instances and declarations, ordinary, slotted and read-only instances, every access order",
  "Sharing shows only with several instances, subclasses or slotted owners accessed in particular orders; tests use one or two plain instances.",
  ["_signal.py"], "Signal.__get__, __set_name__, _create_signal_instance, _cache_signal_instance",
  [("Signal._signal_instance_cache", "instance id -> signal, for instances that cannot store it")])

p("C10", "Group listeners hear every member signal, with its origin",
  "A callback connected to a group is called exactly once for each delivered emission of any of its member signals, with an EmissionInfo naming that signal and its arguments, also after any sequence of group connects and disconnects; after the last group listener is gone no member signal keeps a connection to the group. connect_direct connects the callback to every member, and disconnecting from the group removes it from the group and from every member, reporting an unknown callback only if missing_ok is False and it is connected nowhere.",
  ["inputs", "histories"], "every set of member signals, every history of group connects/disconnects and member emissions",
  "The forwarding connection is installed and removed as a side effect of the first and last group listener; tests use groups of two or three signals and single connect/disconnect pairs.",
  ["_group.py"], "SignalRelay._append_slot, _remove_slot, _connect_relay, _disconnect_relay, _slot_relay, connect_direct, disconnect; SignalGroup construction and lookups",
  [("SignalRelay._signals", "name -> member signal"), ("SignalGroup._psygnal_instances", "name -> member signal")])

p("C11", "Blocking or pausing a group is scoped and restores every member",
  "Blocking a group blocks every member except the excluded ones, and unblocking it, explicitly or by leaving the outermost blocked() context, gives every member the blocked state it had before the group was blocked, excluded members being unaffected throughout. While a group is paused its listeners hear nothing, and resuming delivers what the members emitted meanwhile exactly once and in order.",
  ["inputs", "histories"], "every set of members, every combination of already blocked and excluded members, every nesting",
  "Restoration depends on the state of each member before and on nesting; tests cover one group with one pre-blocked member, no nesting, and never look at what a paused group delivers.",
  ["_group.py", "_signal.py"], "SignalRelay.block, unblock, blocked, _slot_relay; inherited pause/resume",
  [("SignalRelay._sig_was_blocked", "member name -> blocked state to restore")])

p("C12", "Queued callbacks run on their thread, once and in order",
  "A callback connected for a thread is called directly when the signal is emitted on that thread, and otherwise is called exactly once per emission, with that emission's arguments, when that thread's queue is emitted, in emission order. Emitting the queue of one thread never runs callbacks meant for another, and an exception in one queued callback is reported as EmitLoopError and loses none of the others.",
  ["schedules", "inputs", "fault_sequences"], "every target thread, emitting thread, number of queued calls and failing position",
  "Tests queue one or two calls for the main thread only, and do not check what remains after a failing callback.",
  ["_queue.py"], "QueuedCallback.cb and __init__, emit_queued, the per-thread queues",
  [("QueuedCallback._GLOBAL_QUEUE", "thread -> FIFO of (callback, args)")])

p("C13", "EventedList equals list, and its events replay every change",
  "Every operation on an evented list has the result, the error and the final contents that the same operation has on a builtin list (a slice or a copy of it being an evented list again). The emitted events describe every change completely: applying them in order to a copy of the old contents yields the new contents, each inserting/removing event precedes its change and each inserted/removed/changed event follows it with the index and values concerned, an operation that fails up front emits nothing, and with child events on exactly the items in the list are listened to.",
  ["inputs", "histories"], "every list, index, slice and value, every sequence of operations",
  "Indices, slices and their steps are unbounded; tests use a five-element list and about two dozen fixed operations, comparing call lists of mocks rather than replaying them.",
  ["containers/_evented_list.py"], "EventedList.insert, __getitem__, __setitem__, __delitem__, _delitem_indices, copy/__add__/__radd__/__iadd__, reverse and the MutableSequence mixins; _connect_child_emitters",
  [("EventedList._data", "the wrapped list")])

p("C14", "Moving list items permutes the list as requested",
  "Moving an item puts it directly before the element that was at the destination (destinations counted before removal, negative ones from the end, ones out of range meaning the nearest end) and leaves all other elements in their order; moving several puts them there together in the order given. Each single move is announced by one moving event before and one moved event after it with its actual indices and item, a move that changes nothing emits none of these, a reordering operation emits one reordered event, and no insertion or removal events are emitted.",
  ["inputs"], "every list length, every source list and destination, including negative indices and slices",
  "The index arithmetic has a case split per relative position of all sources and the destination; tests have fourteen cases on one list of eight.",
  ["containers/_evented_list.py"], "EventedList.move, move_multiple, _move_plan, reverse",
  [("EventedList._data", "the wrapped list")])

p("C15", "EventedDict equals dict, and its events replay every change",
  "Every operation on an evented dict has the result, the error and the final contents the same operation has on a builtin dict, values of a type that is not allowed being refused with TypeError and no change. Each change is announced by one adding, changing or removing event before it and one added, changed or removed event after it with the key and the values concerned; setting the identical value and failing operations change nothing, and the former emits nothing.",
  ["inputs", "histories"], "every dict, key and value, every sequence of operations, every set of allowed types",
  "Tests use a fixed three-key dict and single operations.",
  ["containers/_evented_dict.py"], "EventedDict.__setitem__, __delitem__; TypedMutableMapping and the MutableMapping mixins; _type_check, copy",
  [("TypedMutableMapping._dict", "the wrapped dict")])

p("C16", "EventedSet equals set, and each event is the exact difference",
  "Every operation on an evented (ordered) set has the result, error and final contents the same operation has on a builtin set, the ordered variant iterating in insertion order. Every named mutating method emits at most one items_changed event, whose added and removed items, disjoint and without repetition, are exactly the difference between the contents after and before, and emits none when nothing changed; an in-place operator may report its change in several such exact events.",
  ["inputs", "histories"], "every set, every number and kind of iterable arguments (also iterators, repeated items and the set itself)",
  "Operations take any iterables, including overlapping, repeating or exhausted ones; tests pass small disjoint literals.",
  ["containers/_evented_set.py"], "_BaseMutableSet methods, the BAIL hooks of EventedSet, _reduce_events with paused()",
  [("_BaseMutableSet._data", "the wrapped set or dict")])

p("C17", "The selection is always consistent with its active item and its list",
  "After any operation, a selection of exactly one item has that item as its active item and otherwise there is no active item, the active event having announced each change of it; items outside the parent container are refused with ValueError. In a selectable list, removing an item also deselects it, and select_next/previous, select_all, deselect_all and remove_selected move to, add or remove exactly the items their description says.",
  ["inputs", "histories"], "every selection, every sequence of selection and list operations, every step and wraparound choice",
  "Consistency must hold after every sequence of operations on two coupled objects; tests check single operations from a few fixed states.",
  ["containers/_selection.py", "containers/_selectable_evented_list.py"], "Selection.active, _update_active, _emit_change, _pre_add_hook, select_only, toggle, clear; SelectableEventedList.insert, _on_item_removed, select_next, remove_selected",
  [("Selection._active", "the active item or None"), ("Selection._current_", "the current item or None")])

p("C18", "Evented dataclasses emit exactly when a field changes",
  "Assigning to an evented field stores the value as the undecorated class would and emits that field's signal (under its alias, if any) with the new and the old value exactly when the field's equality operator says they differ, once per assignment; other attributes and skipped fields emit nothing. Every instance has its own signal group, always the same one for each declared group, and a failing assignment that leaves the field as it was emits nothing and raises as before.",
  ["inputs", "histories"], "every field value, every equality operator (also one that raises or is array-valued), every alias mapping, instance and dataclass flavour",
  "Tests assign a few ints and arrays; equality fallback, aliases and instance caching interact.",
  ["_group_descriptor.py", "_evented_decorator.py", "_dataclass_utils.py"], "evented_setattr/_setattr_and_emit_, _changes_emitted, _check_field_equality, get_signal_from_field, SignalGroupDescriptor.__get__, _build_dataclass_signal_group",
  [("SignalGroupDescriptor._instance_map", "instance id -> group")])

p("C19", "EventedModel emits exactly the changes of fields and dependents",
  "Assigning to a model field or settable property behaves as in pydantic and emits, once and with the value then held, the signals of the assigned name and of the declared dependent properties whose value changed according to their equality operators, and no others. update() and reset() leave the model with exactly the given or default values with listeners of the whole group hearing an update's changes only after all of them were made, and model equality is field-wise equality.",
  ["inputs", "histories"], "every model value, dependency declaration, listener set and assignment sequence, including assignments made by callbacks",
  "The number of fields, dependents and nested assignments is open; tests use two or three fields and fixed dependency maps.",
  ["_evented_model.py"], "EventedModel.__setattr__, _setattr_no_dependants, _setattr_with_dependents/_setattr_impl, ComparisonDelayer, _check_if_values_changed_and_emit_if_needed, update, reset, __eq__; _get_field_dependents",
  [("EventedModel._changes_queue", "name -> value before the pending changes"), ("EventedModel._primary_changes", "names assigned directly"), ("EventedModel._delay_check_semaphore", "number of open delays")])

p("C20", "Throttled and debounced calls obey their interval and keep the last call",
  "A throttled function is called at most once per interval and a debounced one only when no call has come for an interval (plus, with the leading policy, at once when idle), always with the arguments of the most recent call, and the last call of a burst is never lost while the timer is running. flush() performs a pending call at once and never makes one otherwise; cancel() drops a pending call and starts over as if no call had been made.",
  ["schedules", "histories"], "every sequence of calls, flushes, cancels and timer expiries",
  "Tests use real sleeps with one burst each; the order of timer expiry and calls is a schedule they do not vary.",
  ["_throttler.py"], "_ThrottlerBase._actually_call, _call_if_has_pending, _start_timer, cancel, flush; Throttler.__call__, Debouncer.__call__",
  [("_ThrottlerBase._has_pending", "a call is waiting"), ("_ThrottlerBase._args", "arguments of the most recent call")])

p("C21", "Pickles keep settings; copies keep contents and share no events",
  "Unpickling a pickled signal gives a working signal with the same signature, name, description, options, flags, held arguments and strongly held callbacks with their bound arguments and priorities; weakly held ones are dropped with a warning. Copies of evented containers, groups and models have equal contents but their own, unconnected events, so that changing or connecting to the copy does not affect the original.",
  ["inputs"], "every combination of settings, connected callbacks and held arguments, every container content",
  "Tests pickle one signal and compare two or three attributes.",
  ["_signal.py", "_weak_callback.py", "_group.py", "containers/_evented_list.py", "containers/_evented_set.py", "containers/_evented_dict.py"], "SignalInstance.__getstate__/__setstate__, StrongFunction.__getstate__/__setstate__, SignalGroup.__deepcopy__, container copy()/__newlike__")

p("C22", "An evented proxy is transparent and reports each change of its target",
  "Every attribute, item, in-place and call operation on a proxy acts on the wrapped object as if applied to it directly, with the same result and errors. Setting or deleting an attribute or item emits the matching event once with its name or key and new value exactly when the operation succeeded (and, when setting, the stored object changed), in-place operators emit their name and operand once, and calling a callable proxy emits its arguments once.",
  ["inputs"], "every wrapped object, name, key and value, each of the in-place operators",
  "Thirteen operator methods and four accessors over arbitrary wrapped objects; tests use one list/array and existing names.",
  ["containers/_evented_proxy.py"], "EventedObjectProxy.__setattr__, __delattr__, __setitem__, __delitem__, __i*__; EventedCallableObjectProxy.__call__; events cache",
  [("_OBJ_CACHE", "proxy id -> events")])

p("C23", "Monitoring sees every event and leaves no trace",
  "Inside monitor_events every emission of every public signal of the object (or of all signals, without an object) is reported to the logger exactly once, with its signal and arguments, and private signals only on request. When the context is left, normally or by an exception, every connection and hook it installed is gone and the connections that existed before are untouched.",
  ["inputs", "fault_sequences"], "every object with signals or groups, every earlier connection, every way of leaving the context",
  "Tests monitor one object, leave normally, and do not compare the connections before and after.",
  ["utils.py", "_signal.py"], "monitor_events, iter_signal_instances, SignalInstance._debug_hook",
  [("SignalInstance._debug_hook", "global observer")])

p("C24", "Emissions and connection changes of one signal are serialised across threads",
  "When several threads emit, connect and disconnect on the same signal at the same time (not using the documented lock-free fast path), the callbacks of different threads' emissions never interleave, every emission is delivered to a consistent list of callbacks, and no connection or disconnection is lost. No call deadlocks when a callback emits, connects or disconnects on its own signal.",
  ["schedules"], "every interleaving of emit, connect and disconnect calls from any number of threads",
  "The tests run at most two threads once; a missing lock shows only under particular interleavings.",
  ["_signal.py"], "SignalInstance._lock held around every read-modify-write of _slots in connect/disconnect and around the whole emit loop",
  [("SignalInstance._lock", "re-entrant lock guarding slots and emission state")])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(x) + "\n" for x in P))
if __name__ == "__main__":
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
    print(len(P), "properties")
