// The worlds explored by the sequential checks.
#include "seq.h"
#include <errno.h>
#include <sys/socket.h>

struct Reg { Reg(const char *n, WorldMaker m) { world_defs().push_back({ n, m }); } };
#define WORLD(id) static World *mk_##id(); static Reg reg_##id(#id, mk_##id); static World *mk_##id()

static void obj_ops(World *w) { for (auto &o : w->objs) o->add_ops(w->ops); }

// ---------------------------------------------------------------- one registration, whole life
enum Kind { PIPE_R, FIFO_R, SOCK_R, DGRAM_R, LISTEN_R, FILE_R, PIPE_W, SOCK_W, FILE_W, TIMER_K, USER_K, SIG_K, RTSIG_K, PROC_K, VNODE_K, SEQ_R, SEQ_W, DGRAM0_R, TCP_R, TCP_W, EV_R, EV_W, BIGFILE_R, FIFO_W, DGRAM_W, PIPEBIG_R, SOCKBIG_R, SOCKBIG_W, UDP_R, UDP_W, BPF_R, PTY_R, PTY_W };
static Slot *mk_slot(World *w, Kind k, int kq, const char *suffix = "", Obj *share = nullptr)
{
    auto nm = [&](const char *b) { return std::string(b) + suffix; };
    Slot *s = nullptr; Obj *o = share;
    switch (k) {
    case PIPE_R: if (!o) { o = mk_pipe(w, nm("pipe").c_str()); obj_notify_flags(o, 1 | 2 | 4); } s = w->slot(nm("R").c_str(), kq, EVFILT_READ, o, 0); break;
    case FIFO_R: if (!o) { o = mk_fifo(w, nm("fifo").c_str()); obj_notify_flags(o, 1 | 2 | 4 | 2048); } s = w->slot(nm("R").c_str(), kq, EVFILT_READ, o, 0); break;
    case SOCK_R: if (!o) { o = mk_sock(w, nm("sock").c_str(), SOCK_STREAM); obj_notify_flags(o, 1 | 2 | 4 | 8); } s = w->slot(nm("R").c_str(), kq, EVFILT_READ, o, 0); break;
    case DGRAM_R: if (!o) { o = mk_sock(w, nm("dgram").c_str(), SOCK_DGRAM); obj_notify_flags(o, 1 | 2); } s = w->slot(nm("R").c_str(), kq, EVFILT_READ, o, 0); break;
    case LISTEN_R: if (!o) o = mk_listen(w, nm("lsn").c_str()); s = w->slot(nm("R").c_str(), kq, EVFILT_READ, o, 0); break;
    case FILE_R: if (!o) o = mk_file(w, nm("file").c_str()); s = w->slot(nm("R").c_str(), kq, EVFILT_READ, o, 0); break;
    case PIPE_W: if (!o) { o = mk_pipe(w, nm("pipe").c_str()); obj_notify_flags(o, 2 | 8 | 16); } s = w->slot(nm("W").c_str(), kq, EVFILT_WRITE, o, 1); break;
    case SOCK_W: if (!o) { o = mk_sock(w, nm("sock").c_str(), SOCK_STREAM); obj_notify_flags(o, 8 | 16 | 32); } s = w->slot(nm("W").c_str(), kq, EVFILT_WRITE, o, 0); break;
    case FILE_W: if (!o) o = mk_file(w, nm("file").c_str()); s = w->slot(nm("W").c_str(), kq, EVFILT_WRITE, o, 0); break;
    case SEQ_R: if (!o) { o = mk_sock(w, nm("seq").c_str(), SOCK_SEQPACKET); obj_notify_flags(o, 1 | 2 | 4 | 8); } s = w->slot(nm("R").c_str(), kq, EVFILT_READ, o, 0); break;
    case SEQ_W: if (!o) { o = mk_sock(w, nm("seq").c_str(), SOCK_SEQPACKET); obj_notify_flags(o, 8 | 16 | 32); } s = w->slot(nm("W").c_str(), kq, EVFILT_WRITE, o, 0); break;
    case DGRAM0_R: if (!o) { o = mk_sock(w, nm("dgram").c_str(), SOCK_DGRAM); obj_notify_flags(o, 1 | 2 | 128); } s = w->slot(nm("R").c_str(), kq, EVFILT_READ, o, 0); break;
    case DGRAM_W: if (!o) { o = mk_sock(w, nm("dgram").c_str(), SOCK_DGRAM); obj_notify_flags(o, 16 | 32); } s = w->slot(nm("W").c_str(), kq, EVFILT_WRITE, o, 0); break;
    case FIFO_W: if (!o) { o = mk_fifo(w, nm("fifo").c_str()); obj_notify_flags(o, 2 | 8 | 16 | 4096); } s = w->slot(nm("W").c_str(), kq, EVFILT_WRITE, o, 1); break;
    case TCP_R: if (!o) { o = mk_tcp(w, nm("tcp").c_str()); obj_notify_flags(o, 15 | 16); } s = w->slot(nm("R").c_str(), kq, EVFILT_READ, o, 0); break;
    case TCP_W: if (!o) o = mk_tcp(w, nm("tcp").c_str()); s = w->slot(nm("W").c_str(), kq, EVFILT_WRITE, o, 0); break;
    case PTY_R: if (!o) o = mk_pty(w, nm("pty").c_str()); s = w->slot(nm("R").c_str(), kq, EVFILT_READ, o, 0); break;
    case PTY_W: if (!o) o = mk_pty(w, nm("pty").c_str()); s = w->slot(nm("W").c_str(), kq, EVFILT_WRITE, o, 0); break;
    case EV_R: if (!o) o = mk_ev(w, nm("ev").c_str()); s = w->slot(nm("R").c_str(), kq, EVFILT_READ, o, 0); break;
    case EV_W: if (!o) o = mk_ev(w, nm("ev").c_str()); s = w->slot(nm("W").c_str(), kq, EVFILT_WRITE, o, 0); break;
    case BIGFILE_R: if (!o) { o = mk_file(w, nm("file").c_str()); obj_notify_flags(o, 1 | 4 | 8 | 16 | 32 | 64); } s = w->slot(nm("R").c_str(), kq, EVFILT_READ, o, 0); break;
    case PIPEBIG_R: if (!o) { o = mk_pipe(w, nm("pipe").c_str()); obj_notify_flags(o, 4 | 256); } s = w->slot(nm("R").c_str(), kq, EVFILT_READ, o, 0); break;
    case SOCKBIG_R: if (!o) { o = mk_sock(w, nm("sock").c_str(), SOCK_STREAM); obj_notify_flags(o, 4 | 8 | 256); } s = w->slot(nm("R").c_str(), kq, EVFILT_READ, o, 0); break;
    case SOCKBIG_W: if (!o) { o = mk_sock(w, nm("sock").c_str(), SOCK_STREAM); obj_notify_flags(o, 8 | 512); } s = w->slot(nm("W").c_str(), kq, EVFILT_WRITE, o, 0); break;
    case UDP_R: if (!o) o = mk_udp(w, nm("udp").c_str()); s = w->slot(nm("R").c_str(), kq, EVFILT_READ, o, 0); break;
    case UDP_W: if (!o) o = mk_udp(w, nm("udp").c_str()); s = w->slot(nm("W").c_str(), kq, EVFILT_WRITE, o, 0); break;
    case BPF_R: if (!o) { o = mk_sock(w, nm("bpf").c_str(), SOCK_DGRAM); obj_notify_flags(o, 1 | 2 | 128 | 1024); } s = w->slot(nm("R").c_str(), kq, EVFILT_READ, o, 0); break;
    case TIMER_K: s = w->slot(nm("T").c_str(), kq, EVFILT_TIMER, nullptr, 0, 5); s->per = 10; break;
    case USER_K: s = w->slot(nm("U").c_str(), kq, EVFILT_USER, nullptr, 0, 5); break;
    case SIG_K: if (!o) o = mk_sig(w, nm("usr1").c_str(), SIGUSR1); s = w->slot(nm("S").c_str(), kq, EVFILT_SIGNAL, o, 0, SIGUSR1); break;
    case RTSIG_K: if (!o) o = mk_sig(w, nm("rt").c_str(), SIGRTMIN + 4); s = w->slot(nm("S").c_str(), kq, EVFILT_SIGNAL, o, 0, SIGRTMIN + 4); break;
    case PROC_K: if (!o) { o = mk_child(w, nm("child").c_str()); obj_notify_flags(o, 2); } s = w->slot(nm("P").c_str(), kq, EVFILT_PROC, o, 0); break;
    case VNODE_K: if (!o) o = mk_vfile(w, nm("vf").c_str()); s = w->slot(nm("V").c_str(), kq, EVFILT_VNODE, o, 0); s->areq = NOTE_WRITE | NOTE_ATTRIB | NOTE_DELETE | NOTE_RENAME; break;
    }
    if (s->filt == EVFILT_READ || s->filt == EVFILT_WRITE || s->filt == EVFILT_SIGNAL || s->filt == EVFILT_PROC) s->per = 77;      // what a change carries there means nothing and shows up nowhere
    return s;
}
static void env_ops(World *w, Kind k, Slot *s)
{
    if (k == TIMER_K) { op_adv(w, 10000000); op_adv(w, 4000000); }
    if (k == USER_K) op_trigger(w, s, NOTE_FFNOP, 0, true);
}
static World *life(Kind k, int style)
{
    World *w = new World;
    w->style = style;
    Slot *s = mk_slot(w, k, 0);
    op_add(w, s, M_LEVEL);
    op_add(w, s, M_ONESHOT);
    // a change made of what an earlier call returned carries flags that are the system's (style 0: sys0, style 1: sys1)
    const int sys0 = style ? 0 : M_SYS, sys1 = style ? M_SYS : 0;
    if (k != PROC_K) op_add(w, s, M_DISPATCH | sys1);
    if (k != PROC_K) op_add(w, s, M_CLEAR | sys0);
    op_add(w, s, M_DIS | M_UD2 | sys1);
    if (k != PROC_K && style == 0) { op_add(w, s, M_DIS | M_ONESHOT); op_add(w, s, M_DIS | M_DISPATCH); }
    op_enable(w, s); op_disable(w, s); op_delete(w, s);
    if (k != VNODE_K) { op_readd(w, s, style ? M_UD2 | sys1 : M_UD0); if (k != PROC_K) op_readd(w, s, M_DISPATCH | sys0); op_readd(w, s, M_ENA | M_UD2); op_readd(w, s, M_DIS | M_UD0); }
    op_change(w, s, "both", EV_ADD | EV_ONESHOT | EV_DISPATCH, k == TIMER_K ? s->tunit : s->areq, s->per);
    op_collect(w, 0, 2);
    env_ops(w, k, s);
    if (k == VNODE_K) obj_notify_flags(w->objs[0].get(), 1 | 8 | 64 | 128 | 256);
    obj_ops(w);
    return w;
}
#define LIFE(nm, k) static Reg reg_life_##nm("life_" #nm, [] { return life(k, 0); }); static Reg reg_lifer_##nm("lifer_" #nm, [] { return life(k, 1); });
LIFE(pipe_r, PIPE_R) LIFE(fifo_r, FIFO_R) LIFE(sock_r, SOCK_R) LIFE(dgram_r, DGRAM_R) LIFE(listen_r, LISTEN_R) LIFE(file_r, FILE_R)
LIFE(seq_r, SEQ_R) LIFE(seq_w, SEQ_W) LIFE(dgram0_r, DGRAM0_R) LIFE(tcp_r, TCP_R) LIFE(tcp_w, TCP_W) LIFE(ev_r, EV_R) LIFE(ev_w, EV_W) LIFE(bigfile_r, BIGFILE_R) LIFE(fifo_w, FIFO_W) LIFE(dgram_w, DGRAM_W) LIFE(pipebig_r, PIPEBIG_R) LIFE(sockbig_r, SOCKBIG_R) LIFE(sockbig_w, SOCKBIG_W) LIFE(udp_r, UDP_R) LIFE(udp_w, UDP_W) LIFE(bpf_r, BPF_R) LIFE(pty_r, PTY_R) LIFE(pty_w, PTY_W)
LIFE(pipe_w, PIPE_W) LIFE(sock_w, SOCK_W) LIFE(file_w, FILE_W) LIFE(timer, TIMER_K) LIFE(user, USER_K) LIFE(sig, SIG_K) LIFE(rtsig, RTSIG_K) LIFE(proc, PROC_K) LIFE(vnode, VNODE_K)

// ---------------------------------------------------------------- the world acts in the middle of a call
static World *mid(std::vector<Kind> ks, int j0, int j1, std::vector<int64_t> tmos)
{
    World *w = new World;
    w->hist_in_hash = 1;
    std::vector<Slot *> ss; std::vector<Op> env;
    int n = 0;
    for (Kind k : ks) { Slot *s = mk_slot(w, k, 0, n ? fmt("%d", n).c_str() : ""); n++; ss.push_back(s); }
    for (size_t i = 0; i < ks.size(); i++) if (ks[i] == SIG_K || ks[i] == RTSIG_K) obj_notify_flags(ss[i]->obj, 3);
    for (auto &o : w->objs) o->add_ops(env);
    for (Slot *s : ss) {
        op_add(w, s, M_LEVEL);
        if (s->filt == EVFILT_READ || s->filt == EVFILT_WRITE) { op_add(w, s, M_CLEAR); op_add(w, s, M_DISPATCH); op_enable(w, s); }
        if (s->filt != EVFILT_PROC) op_add(w, s, M_ONESHOT);
    }
    op_collect(w, 0, 2);
    for (auto &e : env) w->ops.push_back(e);
    for (auto &e : env) for (int j = j0; j <= j1; j++) for (int64_t t : tmos) for (int k : { 1, 2 }) if (k == 1 || ks.size() > 1) op_mid(w, 0, k, j, e, t);
    return w;
}
#define MID(nm, ...) static Reg reg_mid_##nm("mid_" #nm, [] { return mid({ __VA_ARGS__ }, 0, 4, { 0, 1000000, 1000001 }); });
#define MID2(nm, ...) static Reg reg_mid_##nm("mid_" #nm, [] { return mid({ __VA_ARGS__ }, 0, 5, { 0, 1000001 }); });
MID(pipe_r, PIPE_R) MID(fifo_r, FIFO_R) MID(sock_r, SOCK_R) MID(dgram_r, DGRAM_R) MID(listen_r, LISTEN_R) MID(tcp_r, TCP_R) MID(udp_r, UDP_R) MID(ev_r, EV_R)
MID(pipe_w, PIPE_W) MID(fifo_w, FIFO_W) MID(sock_w, SOCK_W) MID(dgram_w, DGRAM_W) MID(ev_w, EV_W) MID(sig, SIG_K) MID(rtsig, RTSIG_K) MID(proc, PROC_K)
MID2(two, PIPE_R, PIPE_R) MID2(mix, PIPE_R, SIG_K) MID2(two_w, PIPE_W, PIPE_W)
