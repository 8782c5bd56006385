#!/usr/bin/env python3
"""Source of known_findings.txt: open findings below, fixed ones from the fix: commits of /repo."""
import os, subprocess
OPEN = """\
finding: property=C05 tool=seq world=kf_file_eof ops=R.add,file.read2,file.read2,kq0.collect2,file.append,kq0.collect2 :: EVFILT_READ on a regular file: once a call found the offset at end of file the registration goes quiet until it is re-enabled, data appended later is not reported (F-FILE-EOF)
finding: property=C08 tool=seq world=kf_file_eof ops=R.add,file.read2,file.read2,kq0.collect2,file.append,kq0.collect2 :: EVFILT_READ on a regular file at end of file: a call that discovers this uses up a slot of its batch and the registration goes quiet (F-FILE-EOF)
finding: property=C15 tool=seq world=kf_file_clear ops=R.add|clear,kq0.collect2,file.append,kq0.collect2 :: EV_CLEAR on a regular file (EVFILT_READ): appended data is not reported as a new change, the registration is not edge triggered (F-FILE-CLEAR)
finding: property=C16 tool=sched family=kf level=0 scn=block_trigger :: a thread waiting in kevent() holds the kqueue's lock: another thread's EVFILT_USER trigger on the same kqueue blocks until the wait ends, for ever if nothing else ends it (F-WAIT-LOCK)
finding: property=C17 tool=sched family=kf level=0 scn=block_close :: closing a kqueue while another thread waits in kevent() on it blocks the library's background thread with the global lock held, and with it every other call of the library (F-WAIT-CLOSE)
finding: property=C22 tool=sched family=kf level=0 scn=signal_two :: one signal registered with EVFILT_SIGNAL in two kqueues is consumed by the first one collected, the other never reports it (F-SIGNAL-SHARED)
"""
FIXED = {  # first words of the commit subject -> property
 "return receipts and changelist": "C04", "EV_ADD|EV_DISABLE leaves": "C02", "EV_ADD|EV_ENABLE and": "C01",
 "modifying an EVFILT_PROC": "C12", "EVFILT_PROC knote without": "C12", "abort when the process": "C12", "pidfd leaks": "C18",
 "re-adding an EVFILT_READ": "C01", "disabled EVFILT_READ": "C02", "EVFILT_READ and EVFILT_WRITE": "C07", "EVFILT_WRITE reports data": "C06",
 "EV_ONESHOT and EV_DISPATCH on regular": "C03", "cannot disable an EVFILT_READ": "C02", "descriptors backing": "C18",
 "EVFILT_VNODE knote disappears": "C13", "EVFILT_VNODE with EV_ONESHOT": "C13", "NOTE_EXTEND is never": "C13", "EVFILT_VNODE reports events": "C13",
 "timer expirations": "C09", "EV_ADD does not enable": "C02", "map accesses": "C17", "kevent() timeouts": "C14", "kevent() returns 0 before": "C14",
 "events lost or starved": "C08", "unknown EVFILT_LIBKQUEUE": "C24", "closing a kqueue can": "C17", "kqueue() crashes when the wait": "C16",
 "fork closes": "C20", "exit hangs": "C23", "kq_mtx is unlocked": "C19", "kqueue() leaves cancellation": "C19", "a thread cancelled": "C21",
 "kqueue() deadlocks in a child": "C20", "kevent() crashes when it runs": "C19", "eventfd leaks": "C19", "kevent() crashes if": "C19",
 "state of a closed descriptor": "C17", "switching the thread safety": "C16", "kevent() ends its wait": "C14",
 "system flags passed": "C02", "idents too large": "C01", "kevent() waits for ever": "C14",
 "first kqueue() aborts": "C19", "more than 512": "C04", "kqueue() crashes or leaks": "C19", "descriptor 0 is": "C18", "EOF is reported for a connected": "C05",
}
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True, check=True).stdout
out = "# Open findings (replayed by the checks, printed as KNOWN-FINDING) and repaired defects (suppress nothing).\n" + OPEN
for l in log.splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "): continue
    s = s[5:]
    p = [v for k, v in FIXED.items() if s.startswith(k)]
    assert len(p) == 1, s
    out += "fixed: property=%s %s %s\n" % (p[0], h, s)
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known_findings.txt"), "w").write(out)
