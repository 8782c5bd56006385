"""What each property's check explores.

A job is (tool, name, mode/level, depth/bound, processes).
  seq   WORLD  full|closure  DEPTH   operation histories on one thread, model checked against the real library
  sched FAMILY LEVEL         BOUND   all schedules (or fault placements) up to BOUND preemptions (faults)
'closure' enumerates every (reachable model state, operation) pair up to DEPTH operations,
'full' every operation sequence up to DEPTH.
"""
V = 64          # file-change worlds spend their time waiting for the kernel: more processes than cores
_OBJ = ["pipe_r", "fifo_r", "sock_r", "dgram_r", "listen_r", "file_r", "pipe_w", "sock_w", "file_w",
        "timer", "user", "sig", "rtsig", "proc"]
_OBJ2 = ["seq_r", "dgram0_r", "tcp_r", "ev_r", "bigfile_r", "seq_w", "tcp_w", "ev_w", "fifo_w", "dgram_w", "udp_r", "udp_w", "bpf_r", "pty_r", "pty_w"]
_BIG = ["pipebig_r", "sockbig_r"]
_RD2, _WR2 = [x for x in _OBJ2 if x.endswith("_r")], [x for x in _OBJ2 if x.endswith("_w")]


def c(w, d, p=8): return ("seq", w, "closure", d, p)
def f(w, d, p=8): return ("seq", w, "full", d, p)
def s(fam, lvl, b): return ("sched", fam, lvl, b, 8)
def life(d, dv, pre=("life_", "lifer_"), objs=None):
    o = [c(p + x, d) for p in pre for x in (objs or _OBJ)]
    if objs is None: o += [c(p + x, d - 2) for p in pre for x in _OBJ2]
    if objs is None and dv: o += [c(p + "vnode", dv, V) for p in pre]
    return o


_USER = ["user_level", "user_clear", "user_oneshot", "user_dispatch"]
_VN = ["vn_" + x for x in "write extend attrib link rename delete all wrdel attrlink extren one_all one_link one_write disp_all".split()]

_VNS = ["vns_" + x for x in "write extend both all one disp".split()]
_VNN = ["vnn_" + x for x in "link dellink rendel all".split()]

_VNX = ["vnd_all", "vnd_rendel", "vnd_attrib", "vnp_deep", "vnp_name", "vnp_disp"]
_VNC = [("link", 7, 9), ("dellink", 7, 10), ("extend", 5, 7), ("write", 5, 7), ("all", 5, 6), ("disp", 4, 5), ("dis", 4, 6)]
_Z = ["z_life_" + x for x in ["pipe_r", "fifo_r", "sock_r", "file_r", "timer", "user", "sig", "proc"]]     # descriptor 0 is in use

# the outside world acts in the middle of a call
_MR, _MW = ["mid_" + x for x in ["pipe_r", "fifo_r", "sock_r", "dgram_r", "listen_r", "tcp_r", "udp_r", "ev_r"]], ["mid_" + x for x in ["pipe_w", "fifo_w", "sock_w", "dgram_w", "ev_w"]]
_M2 = ["mid_two", "mid_mix", "mid_two_w"]
def hi(d, *n): return [c("h_" + x, d) for x in n]        # every descriptor number below 1040 is taken

_DBG = ["multi0", "life_pipe_r", "life_sock_r", "life_file_r", "life_sock_w", "life_timer", "life_user", "life_sig", "life_proc", "reg_filters"]
_DBG2 = ["life_" + x for x in ["fifo_r", "dgram_r", "listen_r", "pipe_w", "file_w", "rtsig"] + _OBJ2] + ["rw_sock", "iso_rw", "badkq"]
_WD = ["pipe", "sock", "file", "proc", "sig"]

JOBS = {
 "C01": dict(
  quick=[c("reg_idents", 7), c("reg_tidents", 8), c("reg_filters", 5), f("tree4", 8), f("treeperm5", 10), c("badreg", 3), c("badreg2", 3), c("far_r", 4), c("far_rw", 4), s("lin_user", 0, 1)] + [c("wide_" + x, 5) for x in _WD] + [c("wide_vnode", 3, V)] + life(8, 4, ("life_",)),
  thorough=[c("wide_" + x, 8) for x in _WD] + [c("wide_vnode", 5, V)] + [c("reg_idents", 9), c("reg_tidents", 11), c("reg_filters", 7), f("tree5", 9), f("tree6", 8), f("treeperm5", 10), f("treeperm6", 12), c("badreg", 3), c("badreg2", 3), c("far_r", 6), c("far_rw", 6), s("lin_user", 1, 2)] + life(12, 7)),
 "C02": dict(
  quick=life(8, 5) + [c("rw_sock", 4), c("iso_rw", 5), s("lin_user", 0, 1), s("lin_pipe", 0, 1)],
  thorough=life(14, 8) + [c("rw_sock", 7), c("rw_dgram", 7), c("rw_file", 7), c("iso_rw", 8), s("lin_user", 1, 2), s("lin_pipe", 1, 2)]),
 "C03": dict(
  quick=life(8, 5) + [c("user_oneshot", 9), c("user_dispatch", 9), c("sigs_oneshot", 6), c("sigs_dispatch", 5), c("multi0", 7), c("multi5", 6), s("lin_user", 0, 1), s("lin_pipe", 0, 1)],
  thorough=life(14, 8) + [c("user_oneshot", 99), c("user_dispatch", 99), c("sigs_oneshot", 99), c("sigs_dispatch", 9), c("multi0", 12), c("multi5", 10), c("rw_sock", 7), c("rw_file", 7), s("lin_user", 1, 2), s("lin_pipe", 1, 2)]),
 "C04": dict(
  quick=[f("cl3_%d" % i, 1) for i in range(4)] + [f("clseq", 2), f("cllong", 1), c("badreg", 2), c("badreg2", 2)] + life(7, 0, ("lifer_",)),
  thorough=[f("cl3_%d" % i, 1) for i in range(4)] + [f("cl4_%d" % i, 1) for i in range(4)] + [f("clseq", 3), f("cllong", 1), c("badreg", 3), c("badreg2", 3)] + life(12, 7, ("lifer_",))),
 "C05": dict(
  quick=life(10, 0, objs=["pipe_r", "fifo_r", "sock_r", "dgram_r", "listen_r", "file_r"] + _RD2) + life(6, 0, objs=_BIG) + [c("rw_sock", 5), c("rw_dgram", 5), c("rw_file", 5)] + [c(w, 5) for w in _MR] + hi(5, "life_pipe_r", "life_sock_r"),
  thorough=life(16, 0, objs=["pipe_r", "fifo_r", "sock_r", "dgram_r", "listen_r", "file_r"] + _RD2) + life(9, 0, objs=_BIG) + [c("rw_sock", 7), c("rw_dgram", 8), c("rw_file", 7)] + [c(w, 9) for w in _MR] + hi(9, "life_pipe_r", "life_sock_r", "life_fifo_r", "life_listen_r")),
 "C06": dict(
  quick=life(10, 0, objs=["pipe_w", "sock_w", "file_w"] + _WR2) + life(6, 0, objs=["sockbig_w"]) + [c("rw_sock", 5), c("rw_dgram", 5), c("rw_file", 5)] + [c(w, 6) for w in _MW] + hi(5, "life_pipe_w", "life_sock_w"),
  thorough=life(16, 0, objs=["pipe_w", "sock_w", "file_w"] + _WR2) + life(9, 0, objs=["sockbig_w"]) + [c("rw_sock", 7), c("rw_dgram", 8), c("rw_file", 7)] + [c(w, 10) for w in _MW] + hi(9, "life_pipe_w", "life_sock_w")),
 "C07": dict(
  quick=[c("rw_sock", 6), c("rw_dgram", 5), c("rw_file", 5), c("iso_rw", 6), c("rw_tcp", 5), c("rw_ev", 5), c("rw_seq", 5), c("rw_udp", 5), c("rw_dup", 4), c("far_rw", 4)],
  thorough=[c("rw_sock", 8), c("rw_dgram", 8), c("rw_file", 8), c("rw_clear", 7), c("iso_rw", 9), c("far_rw", 6)]),
 "C08": dict(
  quick=[c("multi0", 8), c("multi1", 9), c("multi2", 8), c("multi3", 8), c("multi4", 9), c("multi5", 7), c("backlog", 4), s("conc", 0, 1)] + [c(w, 4) for w in _M2] + hi(5, "multi0"),
  thorough=[c("multi0", 14), c("multi1", 99), c("multi2", 14), c("multi3", 99), c("multi4", 99), c("multi5", 11), c("backlog", 6), s("conc", 1, 1)] + [c(w, 6) for w in _M2] + hi(9, "multi0")),
 "C09": dict(
  quick=[c("timer_units", 10), c("timer_long", 99), c("timer_abs", 99), c("timer_extreme", 99), c("timer_count", 6), c("timers2", 8), c("iso_timer", 6)] + life(10, 0, objs=["timer"]) + hi(5, "life_timer"),
  thorough=[c("timer_units", 16), c("timer_long", 99), c("timer_abs", 99), c("timer_extreme", 99), c("timer_count", 99), c("timers2", 12), c("iso_timer", 9)] + life(18, 0, objs=["timer"]) + hi(9, "life_timer")),
 "C10": dict(
  quick=[c(w, 9) for w in _USER] + life(12, 0, objs=["user"]) + [c("iso_user", 6), s("lin_user", 0, 1), s("conc", 0, 1)] + hi(6, "life_user"),
  thorough=[c(w, 99) for w in _USER] + life(99, 0, objs=["user"]) + [c("iso_user", 99), s("lin_user", 1, 2), s("conc", 0, 2)] + hi(12, "life_user")),
 "C11": dict(
  quick=[c("sigs_level", 7), c("sigs_oneshot", 7), c("sigs_dispatch", 7), c("sigs_edge", 6)] + life(10, 0, objs=["sig", "rtsig"]) + [c("mid_sig", 99), c("mid_rtsig", 99)] + hi(8, "life_sig"),
  thorough=[c("sigs_level", 12), c("sigs_oneshot", 99), c("sigs_dispatch", 12), c("sigs_edge", 9)] + life(20, 0, objs=["sig", "rtsig"]) + [c("mid_sig", 99), c("mid_rtsig", 99)] + hi(20, "life_sig")),
 "C12": dict(
  quick=[c("proc_status", 99), c("proc_two", 99), c("proc_kq2", 99), c("iso_proc", 99)] + life(10, 0, objs=["proc"]) + [c("mid_proc", 99)] + hi(99, "life_proc"),
  thorough=[c("proc_status", 99), c("proc_two", 99), c("proc_kq2", 99), c("iso_proc", 99)] + life(99, 0, objs=["proc"]) + [c("mid_proc", 99)] + hi(99, "life_proc")),
 "C13": dict(
  quick=[f(w, 3, V) for w in _VN] + [f(w, 6 if w != "vns_disp" else 5, V) for w in _VNS] + [f(w, 5, V) for w in _VNN] + [f(w, 4, V) for w in _VNX] + [f("vnc_" + w, d, V) for w, d, _ in _VNC] + [c("vn_two", 4, V), c("life_vnode", 5, V)],
  thorough=[f(w, 5, V) for w in _VN] + [f(w, 8 if w != "vns_disp" else 7, V) for w in _VNS] + [f(w, 7, V) for w in _VNN] + [f(w, 6, V) for w in _VNX] + [f("vnc_" + w, d, V) for w, _, d in _VNC] + [c("vn_two", 99, V), c("life_vnode", 9, V), c("lifer_vnode", 9, V)]),
 "C14": dict(
  quick=[c("timeouts", 3), f("timeouts2", 1), f("timeouts3", 1), c("badkq", 99)] + [c("mid_pipe_r", 5), c("mid_pipe_w", 5), c("mid_sig", 99), c("mid_mix", 4)] + hi(3, "timeouts"),
  thorough=[c("timeouts", 5), c("timeouts2", 3), f("timeouts3", 2), c("badkq", 99)] + [c("mid_pipe_r", 9), c("mid_pipe_w", 9), c("mid_sig", 99), c("mid_mix", 6)] + hi(5, "timeouts")),
 "C15": dict(
  quick=life(10, 0, objs=["pipe_r", "fifo_r", "sock_r", "dgram_r", "listen_r", "pipe_w", "sock_w", "seq_r", "seq_w", "dgram0_r", "tcp_r", "tcp_w", "ev_r", "ev_w", "fifo_w", "dgram_w", "udp_r", "udp_w", "pty_r"]) + [c("rw_clear", 5), c("multi2", 7)] + [c(w, 5) for w in ("mid_pipe_r", "mid_fifo_r", "mid_sock_r", "mid_listen_r", "mid_pipe_w", "mid_sock_w")],
  thorough=life(16, 0, objs=["pipe_r", "fifo_r", "sock_r", "dgram_r", "listen_r", "pipe_w", "sock_w", "seq_r", "seq_w", "dgram0_r", "tcp_r", "tcp_w", "ev_r", "ev_w", "fifo_w", "dgram_w", "udp_r", "udp_w", "pty_r"]) + [c("rw_clear", 8), c("multi2", 12)] + [c(w, 9) for w in _MR + _MW]),
 "C16": dict(
  quick=[s("lin_user", 0, 1), s("lin_pipe", 0, 1), s("conc", 0, 1), s("race", 0, 2), s("own", 0, 1), s("option", 0, 1)],
  thorough=[s("lin_user", 0, 2), s("lin_user", 1, 2), s("lin_pipe", 0, 2), s("lin_pipe", 1, 2), s("conc", 0, 2), s("conc", 1, 1), s("race", 1, 3), s("own", 0, 2), s("own", 1, 1), s("option", 0, 2), s("option", 1, 1)]),
 "C17": dict(
  quick=[s("life", 0, 2), s("life", 1, 1), s("life2", 0, 0), s("race", 0, 1), c("badkq", 99), s("fd0", 0, 1), s("reuse", 0, 2)],
  thorough=[s("life", 0, 3), s("life", 1, 2), s("life", 2, 1), s("life2", 0, 1), s("life2", 1, 0), s("race", 1, 2), c("badkq", 99), s("fd0", 0, 2), s("reuse", 0, 3), c("iso_pipe", 8), c("iso_user", 99)]),
 "C18": dict(
  quick=life(7, 4) + [c("multi0", 7), c("rw_sock", 4), c("rw_file", 4), c("reg_filters", 4), c("badreg", 2), c("badreg2", 2), s("life", 0, 1), s("life2", 0, 0), s("fault", 0, 1), s("fork", 0, 0), s("fd0", 0, 1), s("reuse", 0, 1)] + [c(w, 4) for w in _Z] + [c("z_life_vnode", 3, V)] + [c("wide_" + x, 4) for x in _WD],
  thorough=life(12, 8) + [c("multi0", 12), c("rw_sock", 7), c("rw_file", 7), c("reg_filters", 7), c("badreg", 3), c("badreg2", 3), s("life", 1, 2), s("life2", 0, 1), s("fault", 1, 1), s("fork", 0, 1), s("fd0", 0, 2), s("reuse", 0, 3)] + [c(w, 8) for w in _Z] + [c("z_life_vnode", 6, V)]),
 "C19": dict(
  quick=[s("fault", 0, 2), s("fd0", 0, 2)],
  thorough=[s("fault", 1, 2), s("fd0", 0, 2)]),
 "C20": dict(
  quick=[s("fork", 0, 2), s("fork2", 0, 2), s("fork3", 0, 3)],
  thorough=[s("fork", 0, 3), s("fork2", 0, 3), s("fork3", 0, 5)]),
 "C21": dict(
  quick=[s("cancel", 0, 4), s("cancel2", 0, 2)],
  thorough=[s("cancel", 0, 5), s("cancel2", 0, 3)]),
 "C22": dict(
  quick=[c("iso_pipe", 5), c("iso_sockr", 5), c("iso_sockw", 6), c("iso_file", 5), c("iso_timer", 6), c("iso_user", 6), c("iso_proc", 99), c("iso_rw", 5), c("iso_vnode", 4, V), c("f256_iso_pipe", 4), c("f1024_iso_user", 4), c("f2048_iso_rw", 4), s("conc", 0, 1), s("own", 0, 1)],
  thorough=[c("iso_pipe", 8), c("iso_sockr", 8), c("iso_sockw", 99), c("iso_file", 8), c("iso_timer", 9), c("iso_user", 99), c("iso_proc", 99), c("iso_rw", 9), c("iso_vnode", 7, V), c("f256_iso_pipe", 6), c("f1024_iso_user", 7), c("f2048_iso_rw", 6), c("f256_iso_timer", 6), s("conc", 1, 1), s("own", 0, 2)]),
 "C23": dict(
  quick=[s("exit", 0, 1)],
  thorough=[s("exit", 0, 2), s("exit", 1, 1)]),
 "C24": dict(
  quick=[c("control", 7), c("ctl_debug", 6)] + [c("dbg_" + w, 4) for w in _DBG] + [c("off_" + w, 4) for w in _DBG + ["iso_pipe", "iso_rw"]] + [c("dbg_life_vnode", 4, V), f("dbg_cl3_0", 1), s("option", 0, 1)],
  thorough=[c("control", 10), c("ctl_debug", 9)] + [c("dbg_" + w, 7) for w in _DBG + _DBG2] + [c("off_" + w, 7) for w in _DBG + _DBG2] + [c("off_" + w, 5) for w in ["iso_pipe", "iso_rw", "iso_user"]] + [c("dbg_life_vnode", 7, V)] + [f("dbg_cl3_%d" % i, 1) for i in range(4)] + [s("option", 0, 2)]),
}
