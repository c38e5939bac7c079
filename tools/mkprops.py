#!/usr/bin/env python3
"""writes properties.jsonl (kept as a script so that anchors stay consistent)"""
import json, os
S, O = "signals.hpp", "optional.hpp"
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, state=[dict(name=a, meaning=b) for a, b in state], mechanism=[dict(name=a, where=b) for a, b in mech]))
    if observe:
        d["anchors"]["observe_at"] = list(observe)
    assert len(title) <= 80, title
    P.append(d)

p("C01", "An emission calls exactly the active slots, once each, in connection order",
  "Emitting a signal calls every slot that was connected when the emission began and that is neither blocked nor disconnected when its turn comes, exactly once, and calls nothing else. As long as no slot has been removed from the signal, the calls happen in the order in which the slots were connected.",
  ["inputs", "histories"], "for every number of slots, every state of their connected and blocked flags, every result and every change of those flags while the emission runs",
  "The tests emit on signals with at most a few slots in a handful of states; the claim is for every list length and every combination of flags, including flags that change during the emission.",
  [S], [("signal::operator()", S), ("slot::operator()", S), ("slot_iterator", S), ("optional_last_value", S)],
  [("slot list", "shared, copy-on-write vector of the connected slots")], ["calls made to the connected callables"])
p("C02", "Every slot receives the emitted arguments unchanged",
  "Each slot that is called receives its own copy of every argument that the signal takes by value, equal to the value passed to the emission whatever earlier slots did with their copies. An argument taken by reference refers to the very object the emitter passed, for every slot.",
  ["inputs", "histories"], "for every argument value, every number of slots and everything earlier slots do to their arguments (including moving from them)",
  "Tests use one or two slots with int arguments; a value moved out by an earlier slot only shows with two or more consuming slots and movable types.",
  [S], [("signal::operator()", S), ("slot_argument / slot_iterator::do_invoke", S), ("slot::operator()", S), ("slot_func / slot_pmf call operators", S)])
p("C03", "The combiner decides the result of an emission from the slots' results in order",
  "An emission returns what the signal's combiner returns for the sequence of slot results in call order; dereferencing a position calls the slot there and yields exactly its result (none if it is blocked or disconnected). With the default combiner the result is the last value returned by a slot that was called, and no value if no slot returned one.",
  ["inputs", "programs", "histories"], "for every number of slots, every result value, every pattern of blocked or disconnected slots, and every use of the iterators by a combiner",
  "Tests exercise three fixed combiners over fixed slots.",
  [S], [("optional_last_value", S), ("slot_iterator", S), ("signal::operator()", S)])
p("C04", "Connecting adds exactly one slot and returns a handle to it",
  "Connecting a callable adds exactly one slot, behind all existing ones and leaving them untouched, which calls that callable and is connected and not blocked; the returned connection refers to that slot and no other. A slot object is connected as a copy with its blocked state, and connecting an empty one adds nothing and returns an invalid connection.",
  ["inputs", "histories"], "for every prior content of the signal, every callable, whether the list is shared with a running emission or not, and every failure while copying the callable",
  "Tests connect to nearly empty signals; connecting while the list is shared with running emissions, or with a slot object that is empty or already connected elsewhere, is not covered.",
  [S], [("signal::connect / connect_scoped", S), ("signal::add_slot", S), ("cow_ptr::write", S)])
p("C05", "Disconnecting a connection removes exactly its slot, once",
  "Disconnecting through a connection makes its slot, and no other, never be called by later emissions and removes it from the signal. The call reports true exactly once for each slot, however many handles and threads try and whatever else happened to the signal, and false when the slot is already disconnected.",
  ["histories", "schedules"], "for every history of connects and disconnects in any order, every position in the list, all copies of the handle and all interleavings of concurrent disconnects",
  "Tests disconnect one or two connections in a fixed order; wrong removals need particular orders of removals (index bookkeeping) or races.",
  [S], [("connection::disconnect", S), ("slot::disconnect", S), ("signal::remove_slot", S), ("slot_state::disconnect / index", S)],
  [("slot index", "position of a slot in its signal's list")])
p("C06", "Disconnecting a callable removes exactly the equal slots and counts them",
  "Disconnecting a signal from a callable or slot removes every slot that compares equal to it and no other slot, and returns how many were removed. Every connection to a removed slot reports that it is no longer connected.",
  ["inputs", "histories"], "for every list, every pattern of matches in it (none, adjacent, first, last, all) and every later use of the connections",
  "Tests use lists of a few slots with one match; the swap-and-shrink loop must be right for all patterns of matches.",
  [S], [("signal::disconnect", S), ("signal::erase", S), ("operator==(slot, slot)", S)])
p("C07", "Slots run without locks: any re-entrant use of the signal is possible",
  "No slot is called and no connected callable is destroyed while the library holds a lock, and every operation has released its locks when it returns or throws. Hence a slot, or the destructor of a callable, may connect, disconnect, emit or destroy on the same signal without deadlock. An operation that needs the locks of two signals takes them so that no two such operations can block each other.",
  ["programs", "histories", "schedules"], "for every operation, every re-entrant operation a slot or a destructor performs, and every exit by return or exception",
  "A lock held across a user call only shows when that particular call re-enters the signal; tests contain almost no re-entrant slots and none in destructors.",
  [S], [("signal::add_slot / remove_slot / erase / read_slots", S), ("signal destructor and move", S), ("signal::operator()", S)])
p("C08", "A running emission works on the snapshot taken when it started",
  "The set and order of slots an emission visits is fixed when it starts: slots connected later are not called by it, and connects, disconnects or destruction by other threads or by the slots themselves neither add to, remove from nor reorder what it visits, nor invalidate a slot it is about to call. Only the blocked and disconnected state of a slot is looked at when its turn comes.",
  ["schedules", "programs", "histories"], "for every operation performed on the signal by slots or other threads at any point during the emission",
  "Requires mutation of the list at every point of a running emission; tests mutate at one or two.",
  [S], [("signal::read_slots", S), ("cow_ptr::detach", S), ("signal::operator()", S)])
p("C09", "Shared state is only touched under the lock, atomically, or when unshared",
  "Connecting, disconnecting, blocking, querying and emitting may run concurrently on one signal without data races: the list and the slots' bookkeeping are accessed only under the signal's lock, per-slot flags only atomically, and a list is modified only while no other reader can hold it.",
  ["schedules"], "for every interleaving of any number of threads using the same signal and its connections",
  "No test uses threads against each other systematically, and data races cannot be observed by running them.",
  [S], [("signal mutex", S), ("cow_ptr::detach", S), ("slot_state atomics", S)])
p("C10", "Blocking suppresses calls while it lasts, and only that",
  "A blocked slot is not called; blocking through any handle affects only that slot, does not disconnect it, and ends with unblocking. A blocker blocks its connection's slot from its creation until it is destroyed or assigned over, and moving or swapping blockers transfers that duty without unblocking early or leaving the slot blocked.",
  ["histories", "programs"], "for every sequence of block, unblock, blocker creation, move, swap, assignment and destruction, on live, disconnected and expired connections",
  "Tests cover one blocker on one connection.",
  [S], [("slot_state::block / unblock", S), ("connection::block / unblock / blocked", S), ("connection_blocker", S), ("slot::operator()", S)])
p("C11", "A scoped connection disconnects its slot at the end of its scope",
  "When a scoped connection is destroyed, or another one is moved into it, the slot it referred to is disconnected exactly as by an explicit disconnect. Moving, swapping or releasing a scoped connection transfers that duty to exactly one owner and never disconnects the transferred slot.",
  ["histories", "programs"], "for every sequence of construction, move, assignment, swap, release and destruction",
  "Tests cover one scope with one scoped connection.",
  [S], [("scoped_connection", S), ("signal::connect_scoped", S)])
p("C12", "A slot tracking an object never calls it after its destruction",
  "A slot connected with a shared pointer calls its member function only on the tracked object and only while that object is alive, keeps it alive for the duration of the call, and does not keep it alive otherwise. Once the object is gone the slot is reported as not connected and emissions skip it, yielding no value.",
  ["schedules", "histories"], "for every moment at which the object's last owner releases it, including during the emission and from other threads",
  "The object must die between any two steps of an emission; tests destroy it only between emissions.",
  [S], [("slot_pmf_tracked", S), ("slot(Func, Ptr) for weak pointers / to_weak", S)])
p("C13", "Slots have value semantics",
  "A copy of a slot calls an independent copy of the same callable and has its own state; copying, moving or assigning slots, empty ones included, leaves the source unchanged (copy) or empty (move) and never duplicates or loses a callable. Invoking an empty, blocked or disconnected slot calls nothing and yields no value.",
  ["inputs", "programs"], "for every kind of callable, every state of both slots and every failure while copying",
  "Tests copy one kind of slot once; empty, self- and failing copies are not covered.",
  [S], [("slot constructors and assignment", S), ("slot_func / slot_pmf / slot_pmf_tracked clone", S), ("slot::operator()", S)])
p("C14", "Slot equality means same kind of callable with equal value",
  "Two slots are equal if and only if both are empty, or both hold the same type of callable (and object pointer) and these compare equal; inequality is the negation. Comparing slots never calls them and comparing callables that cannot be compared reports an error instead of an answer.",
  ["inputs"], "for every pair of slots over every pair of callable kinds",
  "Tests compare a few free functions.",
  [S], [("operator==(slot, slot)", S), ("slot_func / slot_pmf equals", S), ("try_equals", S)])
p("C15", "An optional holds at most one value and manages its lifetime exactly",
  "After every constructor, assignment, emplace, reset or swap an optional is engaged exactly when the operation says so and then holds the value it was given (a value it does not take is left alone), also when source and target are the same object or a conversion. A contained value is constructed once, never used outside its lifetime and destroyed exactly once, including when constructing or assigning a value throws.",
  ["inputs", "fault_sequences", "histories"], "for every combination of engaged and disengaged operands, every value type and an exception from any operation on the value",
  "Tests use well-behaved types and no failing copies; lifetime errors and exception paths need every combination.",
  [O], [("optional_base / tc_optional_base", O), ("optional", O)])
p("C16", "Optional comparisons agree with the values, disengaged being the least",
  "For values whose comparison operators are coherent, comparing two optionals, or an optional with a value or with the empty marker, gives the result of comparing the contained values when both are engaged, and otherwise treats a disengaged optional as equal to another disengaged one and less than every value. A disengaged optional's value is never inspected.",
  ["inputs"], "for all operand states and values of all six operators in every operand combination",
  "Six operators times the operand forms times states: tests sample a few.",
  [O], [("relational operators", O)])
p("C17", "A copy-on-write pointer behaves like a private copy",
  "Writing through one copy-on-write pointer never changes what any other one reads, while reading and copying never copy the value. Writable access to a value shared with others first makes a private copy equal to it, and access to an unshared value copies nothing.",
  ["inputs", "histories", "schedules"], "for every number of sharers, every order of copies, writes and destruction, and concurrent releases by other threads",
  "Only used indirectly by tests.",
  [S], [("cow_ptr", S)])
p("C18", "Connection handles tell the truth and stay safe forever",
  "A connection is valid while its slot exists and reports connected exactly when that slot is still connected; copies, moves and swaps of handles refer to exactly the slots they should. Every operation on a default-constructed, moved-from or expired handle, or one whose signal has been destroyed, is safe, changes nothing and reports false.",
  ["histories", "schedules"], "for every handle operation at every point of the lifetime of signal, slot and handle",
  "Tests query handles in two or three states.",
  [S], [("connection", S), ("slot_base", S), ("signal destructor", S)])
p("C19", "Moving or destroying a signal carries or ends all its connections",
  "Moving a signal transfers all its slots in order to the target, with every existing connection still working on the target, and leaves the source empty and usable; the slots the target had before are disconnected. Destroying a signal disconnects every slot, and no handle or running emission touches it afterwards.",
  ["histories"], "for every number of slots in both signals, self-assignment, and connections used after the move or destruction, including by slots of an emission that is still running (moving or destroying a signal while another thread operates on it is the user's to order)",
  "Tests move one signal once and never use its old connections.",
  [S], [("signal move constructor / assignment / destructor", S), ("adopt_slots / disconnect_slots", S)])
p("C20", "Exceptions from user code pass through and leave everything consistent",
  "An exception thrown by a slot, by copying an argument or a callable, by comparing callables or by a combiner reaches the caller unchanged, and so does exhausted memory in every operation that is not declared noexcept. The signal is then fully usable: no lock is held, no slot is lost, duplicated or half removed, every bookkeeping entry is consistent and nothing leaks.",
  ["fault_sequences", "inputs"], "for an exception at every call into user code and every failing allocation of every operation",
  "Tests never throw.",
  [S, O], [("signal::operator()", S), ("signal::connect / erase", S), ("optional_last_value", S), ("optional", O)])
p("C21", "Optional accessors return the contained value, or fail as documented",
  "Every accessor of an engaged optional refers to the contained value, on every kind of object expression; on a disengaged optional the checked accessor throws, the pointer accessors return null and the fallback accessors return or compute the fallback. Optional references rebind on assignment and refer to the original object, and an optional of void never holds a value.",
  ["inputs"], "for every accessor on every state and value, including optional references and optional of void",
  "Tests call a few accessors on a few values.",
  [O], [("optional::value / value_or / get / get_ptr / operator* / operator->", O), ("optional<T&>", O), ("optional<void>", O)])
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
with open("properties.jsonl", "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
