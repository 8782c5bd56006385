#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it to regenerate the file)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or ["return value and event list of kevent()"]
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "A kqueue maps each (filter, ident) to exactly one registration",
 "After any history of add, re-add, enable, disable and delete changes, a kqueue holds exactly one registration for each (filter, ident) pair that was added and not since deleted or fired one-shot, and none for any other pair: changing or deleting an absent pair fails with ENOENT and changes nothing, and re-adding a present one modifies it instead of duplicating it. An ident too large to be a descriptor, process or signal number is refused by the filters for those, never taken for another. Every delivered event carries exactly the ident (full pointer width), filter and most recently registered udata of the registration it belongs to.",
 ["histories", "inputs"], "All change/collect histories up to the depth bound, over several filters, several idents per filter (including 0 and the largest values) and several udata values.",
 "Tests exercise one registration at a time along a fixed script; collisions, tree rebalancing with several idents, and re-add/delete orderings are quantified over all histories.",
 ["src/common/kevent.c", "src/common/knote.c", "src/common/filter.c", "src/common/tree.h"],
 [("change dispatch", "src/common/kevent.c: kevent_copyin_one"), ("ordered index of registrations", "src/common/knote.c: knote_cmp, knote_lookup, knote_insert, knote_delete")])

prop("C02", "Disabled registrations are silent, enabled ready ones are reported",
 "No call ever returns an event for a registration that is disabled or deleted, whatever the state of the watched object and of other registrations on it. An enabled registration whose condition holds at the time of the call is returned by the next call that has room for it, including when it was disabled and re-enabled any number of times, or created disabled and enabled later, and changing its state again (disabling twice, deleting while disabled) always succeeds. Flags that only the library sets (EOF, error) have no effect in a change, so a returned event can be passed back.",
 ["histories"], "All histories of add (enabled or disabled), enable, disable, delete, condition changes and collections up to the depth bound, for every filter.",
 "Tests check one disable/enable round trip per filter with the object in one state; they do not combine enable state with peer close, shared descriptors or creation in the disabled state.",
 ["src/common/knote.c", "src/common/kevent.c", "src/linux/read.c", "src/linux/write.c", "src/linux/user.c", "src/linux/timer.c", "src/linux/signal.c", "src/linux/vnode.c", "src/linux/proc.c", "src/linux/platform.c"],
 [("enable/disable", "src/common/knote.c: knote_enable, knote_disable"), ("epoll (de)registration", "src/linux/platform.c: epoll_update")])

prop("C03", "One-shot fires exactly once; dispatch fires once per enable",
 "A one-shot registration delivers exactly one event in its lifetime and then no longer exists: later changes to it fail with ENOENT and the same pair can be added afresh. A dispatch registration delivers exactly one event per enablement, then stays registered but silent until it is explicitly enabled, after which it delivers again if its condition holds; requesting both modes at once is rejected.",
 ["histories"], "All histories of triggering, collecting (with any event-list size), enabling, disabling, deleting and re-adding one-shot and dispatch registrations up to the depth bound, for every filter.",
 "Tests walk a single fire / re-enable cycle per filter; repeated cycles, firing with limited room and re-adding after firing are unexplored.",
 ["src/common/private.h", "src/common/knote.c", "src/linux/user.c", "src/linux/timer.c", "src/linux/read.c", "src/linux/write.c", "src/linux/signal.c", "src/linux/vnode.c"],
 [("post-delivery actions", "src/common/private.h: knote_copyout_flag_actions")])

prop("C04", "Change lists are applied in order and every failure or receipt is returned",
 "The changes of one call are applied one by one in list order. Each change that fails produces an error entry (its own ident, filter and udata, the error flag, a non-zero errno in data), and each change that asks for a receipt and succeeds produces an entry with the error flag and data 0, all in list order at the front of the event list, all counted in the return value, and returned at once without waiting; a call with no failure and no receipt request adds no such entry. When the list has no room for a failure or receipt the call returns -1 with errno set and does not apply the remaining changes; the call never writes beyond the given number of entries and the two lists may be the same array.",
 ["inputs", "histories"], "All change lists up to length 3 (thorough: 4) over a set of succeeding, failing and receipt-requesting changes, times all event-list sizes, aliased or separate arrays, timeouts zero/finite/none, and whether another event is pending.",
 "Tests submit single-element change lists with matching room and almost never combine receipts, errors, pending events and timeouts.",
 ["src/common/kevent.c"],
 [("change list processing", "src/common/kevent.c: kevent_copyin"), ("entry point", "src/common/kevent.c: kevent")])

prop("C05", "Read events report the descriptor's true readable state",
 "For an enabled level-triggered read registration on a pipe, fifo, socket, listening socket or regular file, a call returns an event if and only if the descriptor is readable at that moment: data is queued, a connection is pending, the file offset is not at end of file, or the peer or read side has closed. The data field equals the number of bytes that can be read (offset distance to end for files), and the EOF flag is present exactly when the writing side is gone, including while data is still queued. A pending socket error is delivered in fflags together with the EOF flag.",
 ["histories"], "All histories of peer writes, reads of all or part, shutdowns, closes, seeks, appends and collections up to the depth bound over each descriptor type.",
 "Tests check fixed write-then-poll scripts; interleavings of partial reads, EOF with data queued, seeks past end, and re-arming after drain are not covered.",
 ["src/linux/read.c", "src/linux/platform.c"],
 [("read delivery", "src/linux/read.c: evfilt_read_copyout"), ("descriptor classification", "src/linux/platform.c: linux_get_descriptor_type"), ("demultiplexing", "src/linux/platform.c: linux_kevent_copyout")])

prop("C06", "Write events report the descriptor's true writable state",
 "For an enabled level-triggered write registration on a pipe, fifo, socket or regular file, a call returns an event if and only if a write would not block at that moment, and the EOF flag is present exactly when the other end is gone, with a pending socket error in fflags. The data field is a function of the descriptor's queue only, never of earlier contents of the registration or of the caller's buffers.",
 ["histories"], "All histories of filling, draining, peer close and shutdown, and collections up to the depth bound, over each descriptor type.",
 "Tests only check that a fresh descriptor is writable; full buffers, drained buffers and vanished peers are not explored.",
 ["src/linux/write.c", "src/linux/platform.c"],
 [("write delivery", "src/linux/write.c: evfilt_write_copyout"), ("demultiplexing", "src/linux/platform.c: linux_kevent_copyout")])

prop("C07", "Read and write registrations on one descriptor are independent",
 "When a descriptor has both a read and a write registration in the same kqueue, adding, enabling, disabling, deleting, or firing (one-shot, dispatch) either one never changes whether, or with what EOF indication, the other is reported. Each behaves as it would if it were the only one, for level-triggered registrations.",
 ["histories"], "All histories over the two registrations' changes, peer writes, drains, shutdowns and closes, and collections with one or two slots, up to the depth bound.",
 "Tests contain two fixed scripts with both filters; the shared registration state machine has a state space far larger than these.",
 ["src/linux/platform.c", "src/linux/read.c", "src/linux/write.c"],
 [("shared descriptor state", "src/linux/platform.c: epoll_fd_state, epoll_fd_state_mod, epoll_fd_state_del, epoll_update")],
 state=[("fd_state", "read and write registrations sharing one epoll entry", "src/linux/platform.h")])

prop("C08", "No pending event is lost when the event list is smaller than the backlog",
 "With any number of pending events and any event-list size, a call returns min(pending, size) distinct events (up to the library's batch limit of 512 in one call), never more than requested, and events left out stay pending and are returned by later calls. Repeating the call with any size of at least one eventually returns every pending event, including edge-triggered, one-shot and timer events, each exactly as often as its mode prescribes.",
 ["histories", "inputs"], "All subsets of a set of registrations of different filters and modes made pending in any order, and all sequences of event-list sizes until drained; large backlogs around the internal batch limit.",
 "Tests always pass an event list larger than the number of pending events.",
 ["src/common/kevent.c", "src/linux/platform.c"],
 [("slot accounting", "src/common/kevent.c: kevent"), ("batch retrieval", "src/linux/platform.c: linux_kevent_wait, linux_kevent_copyout")])

prop("C09", "Timers fire on schedule and count expirations exactly",
 "A timer with period P (in any supported unit) registered, re-registered or re-enabled at time T is first reported at T+P and never earlier; a periodic timer reports in its data field exactly the number of periods elapsed since it was last reported (or armed), a one-shot timer fires once, and an absolute timer fires at the given monotonic instant. A disabled or deleted timer never fires, and modifying an armed timer replaces its schedule entirely, including its periodicity.",
 ["histories", "inputs"], "All histories of add, modify, enable, disable, delete, clock advance and collection up to the depth bound under a controlled clock, over all units and modes.",
 "Tests depend on wall-clock sleeps and check one or two expirations with tolerance; they cannot enumerate histories or check exact counts.",
 ["src/linux/timer.c"],
 [("arming", "src/linux/timer.c: convert_timedata_to_itimerspec, evfilt_timer_knote_create, evfilt_timer_knote_modify"), ("expiration count", "src/linux/timer.c: evfilt_timer_copyout")],
 observe=["kevent() event list under a virtual clock substituted at the system-call boundary"])

prop("C10", "User events: exact trigger state and flag arithmetic",
 "A user event is pending if and only if it was triggered while enabled and has not been reset since by delivery (clear, dispatch or one-shot); without those modes it stays pending once triggered. The delivered fflags are exactly the 24-bit value obtained by applying each copy/and/or/no-op request in order, with control and trigger bits removed.",
 ["histories", "inputs"], "All histories of flag operations, triggers, enable/disable and collections up to the depth bound for every registration mode.",
 "Tests apply each operation once; compositions and interplay with modes are unexplored.",
 ["src/linux/user.c"],
 [("flag algebra and trigger", "src/linux/user.c: linux_evfilt_user_knote_modify"), ("delivery", "src/linux/user.c: linux_evfilt_user_copyout")])

prop("C11", "Signal events report every pending occurrence and nothing else",
 "A signal sent to the process while an enabled signal registration for its number exists is reported by the next call and suppresses normal disposition; it is reported once, never under another number, and never again without a new occurrence. A signal that became pending while the registration was disabled or removed is reported once it is enabled or added again, and queued real-time signals are each reported.",
 ["histories"], "All histories over two signal numbers of add, disable, enable, delete, raise and collect up to the depth bound, in each delivery mode.",
 "Tests raise a single signal number in a fixed script.",
 ["src/linux/signal.c"],
 [("signal capture", "src/linux/signal.c: signalfd_create"), ("delivery", "src/linux/signal.c: evfilt_signal_copyout")])

prop("C12", "Process exit is reported once with the true status and without reaping",
 "For a direct child, an exit registration delivers exactly one event once the child has terminated, whether it terminates before or after registration, with data equal to the status waitpid() would return as long as the child was not reaped, the EOF flag set, and the registration removed. The child remains waitable with the same status; every kqueue watching the child gets its own event, other children's exits never cause one, and deleting or disabling first suppresses it.",
 ["histories", "inputs"], "All histories of add, disable, enable, delete, child termination (exit codes and fatal signals), collect and reap up to the depth bound with one or two children and one or two kqueues.",
 "Tests cover a handful of orders with one exit code and one signal.",
 ["src/linux/proc.c"],
 [("status reconstruction", "src/linux/proc.c: evfilt_proc_copyout"), ("exit watch", "src/linux/proc.c: evfilt_proc_knote_create, _enable, _disable, _delete")])

prop("C13", "File events report exactly the requested changes that happened",
 "For a file-change registration, each write, extension, attribute change, link-count change, rename or deletion of the file that was requested is reported, and no event reports a kind of change that was not requested (other than extension accompanying a requested write) or that did not happen, or reports no change at all. Opening, reading or closing the file elsewhere neither produces an event nor affects the registration.",
 ["histories", "inputs"], "All combinations of requested kinds and all histories of file operations, enable/disable and collections up to the depth bound.",
 "Tests request one kind and perform the matching operation once.",
 ["src/linux/vnode.c"],
 [("watch mask", "src/linux/vnode.c: add_watch"), ("event translation", "src/linux/vnode.c: evfilt_vnode_copyout")])

prop("C14", "Waiting honours the timeout exactly",
 "A call with room for events and nothing pending returns 0 no earlier and no later than its timeout, for every non-negative timeout including zero, sub-millisecond and very large ones, and a call with no timeout returns only when an event is available or it is interrupted. A call returns as soon as the first event becomes pending, a call with no room returns immediately, and an interrupted wait returns -1 with EINTR and leaves every registration and pending event as it was. A timeout with a negative part or 1e9 or more nanoseconds is refused with EINVAL at once.",
 ["inputs", "histories"], "All timeout values from a boundary set times all placements of the first event before, at and after the deadline, under a controlled clock; all interruption points.",
 "Tests use two or three real timeouts and cannot observe exactness or large values.",
 ["src/linux/platform.c", "src/common/kevent.c"],
 [("wait", "src/linux/platform.c: linux_kevent_wait, linux_kevent_wait_hires")])

prop("C15", "Edge-triggered registrations report each change once and miss none",
 "With the clear flag, a read or write registration that is the only one on its descriptor is reported after every new arrival (or return of writability), including one that happens before earlier data was consumed, and is not reported again until something new happens. The same holds after re-enabling and across calls with any event-list size.",
 ["histories"], "All histories of arrivals, partial and full consumption, disable/enable and collections up to the depth bound over each descriptor type.",
 "Tests check one edge and one quiet poll.",
 ["src/linux/read.c", "src/linux/write.c", "src/linux/platform.c"],
 [("edge registration", "src/linux/read.c: evfilt_read_knote_create; src/linux/write.c: evfilt_write_knote_create"), ("re-registration", "src/linux/platform.c: epoll_update")])

prop("C16", "Concurrent calls behave as if executed one at a time",
 "When several threads call the library at once, on the same or different kqueues, every call returns what it would have returned in some sequential order of the calls consistent with real time: each event occurrence is handed to exactly one caller, no change is lost, and nothing deadlocks, crashes or touches freed memory. A thread waiting on one kqueue does not delay calls that use only other kqueues (calls on the same kqueue wait until it returns).",
 ["schedules"], "All interleavings, up to a preemption bound, of two or three threads each performing one to three calls; switch points at every synchronisation operation and system call of the library.",
 "Tests run threads under the scheduler's whim and check only absence of crashes.",
 ["src/common/kevent.c", "src/common/kqueue.c", "src/common/private.h", "src/linux/platform.c"],
 [("lock order global then per-kqueue", "src/common/kevent.c: kevent"), ("per-thread event buffer", "src/linux/platform.c: epoll_events")],
 observe=["results of kqueue()/kevent() in all threads, under a controlled scheduler substituted at the pthread/system-call boundary"])

prop("C17", "Closing a kqueue frees it and never disturbs any other kqueue",
 "Closing a kqueue descriptor eventually releases everything the library held for it, whatever is registered on it, whether or not its descriptor numbers are reused immediately, and however closing, creation and use of other kqueues interleave. No close ever destroys, empties or otherwise affects a kqueue that is still open, calls on a closed descriptor fail once it has been cleaned up and affect nothing else before that, and creation always yields a working empty kqueue.",
 ["schedules", "histories"], "All histories of create/close/use over three kqueues up to the depth bound, times all interleavings of the calling threads with the library's background thread up to a preemption bound.",
 "The race between deferred close handling and descriptor reuse appears only in specific interleavings that a stress test samples blindly.",
 ["src/linux/platform.c", "src/common/kqueue.c", "src/common/map.c"],
 [("close detection thread", "src/linux/platform.c: monitoring_thread_loop, monitoring_thread_kqueue_cleanup"), ("id reuse", "src/common/kqueue.c: kqueue, kqueue_free_by_id")],
 state=[("fd_map/fd_use_cnt", "pending close notifications per descriptor number", "src/linux/platform.c")],
 observe=["kevent() results, open descriptors, live heap blocks, under a controlled scheduler"])

prop("C18", "Resources are released: nothing leaks, nothing foreign is closed",
 "Deleting a registration (explicitly, by one-shot firing, or by closing its kqueue) releases every descriptor and heap block the library acquired for it, so any history that returns to an empty kqueue returns to the resource usage of an empty kqueue, and closing it returns to the usage before creation. The library never closes or reads from a descriptor it did not open, and every descriptor it opens is close-on-exec.",
 ["histories"], "All change/collect/close histories up to the depth bound over all filters and object types, with descriptor and heap accounting at the system-call and allocator boundary.",
 "Tests check no resource accounting except under occasional sanitizer runs of fixed scripts.",
 ["src/common/knote.c", "src/common/kqueue.c", "src/common/filter.c", "src/linux/platform.c", "src/linux/timer.c", "src/linux/user.c", "src/linux/signal.c", "src/linux/vnode.c", "src/linux/proc.c", "src/linux/read.c", "src/linux/write.c"],
 [("registration release", "src/common/knote.c: knote_delete, knote_release"), ("kqueue release", "src/common/kqueue.c: kqueue_free; src/linux/platform.c: linux_kqueue_free")],
 observe=["descriptor and allocation ledger at the system-call/allocator boundary"])

prop("C19", "Running out of resources yields a clean error",
 "If any system call or memory allocation made by the library fails for lack of resources (descriptors, memory, watches, threads) or a wait is interrupted, the affected call reports failure with errno set (or absorbs it with no visible effect) without crashing, hanging or corrupting anything. A failed creation or addition leaves no registration and no leaked resource, other registrations and kqueues keep working exactly as before, and retrying the same operation succeeds.",
 ["fault_sequences", "histories"], "Every library call site reached by a set of histories covering all filters, failed one at a time and in pairs with each resource-type errno plausible for that call.",
 "Tests never inject faults.",
 ["src/common/kevent.c", "src/common/kqueue.c", "src/linux/platform.c", "src/linux/read.c", "src/linux/write.c", "src/linux/timer.c", "src/linux/user.c", "src/linux/signal.c", "src/linux/vnode.c", "src/linux/proc.c"],
 [("creation rollback", "src/common/kevent.c: kevent_copyin_one; src/linux/platform.c: linux_kqueue_init, epoll_update")],
 observe=["kqueue()/kevent() results and resource ledger under fault injection at the system-call/allocator boundary"])

prop("C20", "fork gives the child a clean slate and leaves the parent untouched",
 "After fork, the parent's kqueues keep all registrations and pending events whatever the child does (including exiting or creating and closing its own kqueues), and (unless clean-up on fork was switched off, in which case nothing is taken away) the child holds none of the descriptors that make up the parent's kqueues. With clean-up on, the default, the child can create, use and close its own kqueues normally, at whatever point of the other threads' library calls the fork happened.",
 ["schedules", "histories"], "All placements of fork relative to a second thread's library calls and the background thread up to a preemption bound, times scripts of parent and child operations; fork cleanup on and off (off: the child makes no library calls).",
 "Tests fork once in a quiescent single-threaded program.",
 ["src/common/kqueue.c", "src/linux/platform.c"],
 [("fork handlers", "src/common/kqueue.c: libkqueue_pre_fork, libkqueue_parent_fork, libkqueue_child_fork; src/linux/platform.c: linux_libkqueue_fork")])

prop("C21", "Cancelling a thread inside the library leaves the library usable",
 "A thread cancelled at any point while it is calling the library either completes its call or is terminated without effect on anything but the events it may already have taken: afterwards other threads can still use that kqueue, other kqueues, and create and close kqueues without deadlock, corruption or leak. With cancellation disabled by the caller the call completes normally and the caller's cancellation setting is unchanged on return.",
 ["schedules"], "All points at which the cancellation request can arrive relative to the target's call and other threads' calls, up to a preemption bound.",
 "Cancellation arrives at one fixed point in the tests.",
 ["src/common/kevent.c", "src/common/kqueue.c"],
 [("cancellation window", "src/common/kevent.c: kevent, kevent_release_kq_mutex")])

prop("C22", "kqueues are isolated from one another",
 "Registrations, deliveries and changes in one kqueue never alter what another kqueue reports: the same descriptor, timer ident, user ident, file or process can be registered in several kqueues and each reports it independently according to its own flags, also after one of them is closed.",
 ["histories"], "All histories over two kqueues registering the same objects, with collections on either and closing of one, up to the depth bound.",
 "Tests use a single kqueue nearly everywhere.",
 ["src/common/kqueue.c", "src/common/filter.c", "src/linux/platform.c"],
 [("per-kqueue filter state", "src/common/filter.c: filter_register_all"), ("per-kqueue epoll set", "src/linux/platform.c: linux_kqueue_init")])

prop("C23", "Process exit is prompt and clean whatever the library is doing",
 "When the process exits normally, with any mixture of open, just-closed and never-used kqueues, exit completes without deadlock, crash or double release, whatever the library's background thread is doing at that moment, and also in forked children.",
 ["schedules", "histories"], "All interleavings of exit with the background thread's start-up, close handling and termination up to a preemption bound, for scripts that create, use and close kqueues before exiting.",
 "Each test run exits once in a quiescent state.",
 ["src/common/kqueue.c", "src/linux/platform.c"],
 [("exit handling", "src/common/kqueue.c: libkqueue_free; src/linux/platform.c: linux_libkqueue_free, monitoring_thread_cleanup")])

prop("C24", "The library's own control filter answers queries and sets options exactly",
 "Version queries through the library's control filter return one receipt entry with the library's version number or string, option changes return the previous value and take effect for later calls, repeated any number of times and mixed with any other changes. Unknown options are rejected with an error, and none of these ever produce a deliverable event or disturb other registrations; with debug output switched on, or thread safety switched off in a program that uses one thread, every call behaves exactly as otherwise.",
 ["histories", "inputs"], "All sequences of control changes mixed with ordinary registrations up to the depth bound.",
 "Tests issue each query once.",
 ["src/common/libkqueue.c", "src/common/kevent.c"],
 [("control filter", "src/common/libkqueue.c: common_libkqueue_knote_create, common_libkqueue_knote_modify")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
