// Worlds with several registrations, change lists, timeouts, the control filter, large backlogs.
#include "seq.h"
#include <errno.h>
#include <stdarg.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/socket.h>

struct Reg { Reg(const std::string &n, WorldMaker m) { world_defs().push_back({ n, m }); } };
static void obj_ops(World *w) { for (auto &o : w->objs) o->add_ops(w->ops); }
static auto always = [] { return true; };

// ================================================================ C01: registry
// idents of one filter that agree in their low bits or are extreme
static World *mk_idents()
{
    World *w = new World;
    static const uintptr_t id[] = { 0, 1, 0x100000001ull, ~(uintptr_t)0, 0x8000000000000000ull };
    int i = 0;
    for (uintptr_t v : id) {
        Slot *s = w->slot(fmt("U%d", i++).c_str(), 0, EVFILT_USER, nullptr, 0, v);
        op_add(w, s, M_CLEAR); op_delete(w, s); op_trigger(w, s, NOTE_FFNOP, 0, true);
    }
    op_collect(w, 0, 8);
    return w;
}
static Reg r_idents("reg_idents", mk_idents);
static World *mk_tidents()
{
    World *w = new World;
    static const uintptr_t id[] = { 1, 0x100000001ull, ~(uintptr_t)0 };
    int i = 0;
    for (uintptr_t v : id) {
        Slot *s = w->slot(fmt("T%d", i++).c_str(), 0, EVFILT_TIMER, nullptr, 0, v);
        s->per = 10;
        op_add(w, s, M_LEVEL); op_delete(w, s); op_disable(w, s); op_readd(w, s, M_UD2);
    }
    op_adv(w, 10000000);
    op_collect(w, 0, 8);
    return w;
}
static Reg r_tidents("reg_tidents", mk_tidents);
// numbers too large for a descriptor, a process or a signal, the low half of which names one
static World *mk_wide(int which)
{
    World *w = new World;
    std::vector<Slot *> ss;
    for (int wide = 0; wide < 2; wide++) {
        auto nm = [&](const char *b) { return std::string(b) + (wide ? "+2^32" : ""); };
        auto ob = [&](Obj *(*f)(World *, const char *), const char *n) { return wide ? ss[0]->obj : f(w, n); };
        auto add = [&](short f, Obj *o, int side, uintptr_t uid) { Slot *s = w->slot(nm(filt_name(f)).c_str(), 0, f, o, side, uid); s->wide = wide; ss.push_back(s); };
        if (which == 0) { Obj *o = ob(mk_pipe, "pipe"); if (!wide) obj_notify_flags(o, 1 | 2 | 4); add(EVFILT_READ, o, 0, 0); }
        if (which == 1) { Obj *o = wide ? ss[0]->obj : mk_sock(w, "sock", SOCK_STREAM); if (!wide) obj_notify_flags(o, 1 | 2 | 16 | 32); add(EVFILT_WRITE, o, 0, 0); add(EVFILT_READ, o, 0, 0); }
        if (which == 2) { Obj *o = wide ? ss[0]->obj : mk_file(w, "file"); add(EVFILT_READ, o, 0, 0); }
        if (which == 3) { Obj *o = ob(mk_child, "child"); if (!wide) obj_notify_flags(o, 2); add(EVFILT_PROC, o, 0, 0); }
        if (which == 4) { Obj *o = wide ? ss[0]->obj : mk_sig(w, "usr1", SIGUSR1); add(EVFILT_SIGNAL, o, 0, SIGUSR1); }
        if (which == 5) { Obj *o = ob(mk_vfile, "vf"); if (!wide) obj_notify_flags(o, 1 | 8); add(EVFILT_VNODE, o, 0, 0); ss.back()->areq = NOTE_WRITE | NOTE_ATTRIB; }
    }
    for (Slot *s : ss) { op_add(w, s, M_LEVEL); if (s->wide) op_add(w, s, M_DIS); op_delete(w, s); op_disable(w, s); op_enable(w, s); }
    op_collect(w, 0, 4);
    obj_ops(w);
    return w;
}
static Reg r_wide0("wide_pipe", [] { return mk_wide(0); }), r_wide1("wide_sock", [] { return mk_wide(1); }), r_wide2("wide_file", [] { return mk_wide(2); }), r_wide3("wide_proc", [] { return mk_wide(3); }), r_wide4("wide_sig", [] { return mk_wide(4); }), r_wide5("wide_vnode", [] { return mk_wide(5); });
// one number used as ident in several filters
static World *mk_filters()
{
    World *w = new World;
    Obj *o = mk_sock(w, "sock", SOCK_STREAM); obj_notify_flags(o, 1 | 2 | 16 | 32);
    Slot *r = w->slot("R", 0, EVFILT_READ, o, 0), *x = w->slot("W", 0, EVFILT_WRITE, o, 0);
    Slot *t = w->slot("T", 0, EVFILT_TIMER, o, 0), *u = w->slot("U", 0, EVFILT_USER, o, 0);
    t->per = 10;
    op_add(w, r, M_LEVEL); op_add(w, x, M_LEVEL); op_add(w, t, M_LEVEL); op_add(w, u, M_CLEAR);
    for (Slot *s : { r, x, t, u }) { op_delete(w, s); op_disable(w, s); }
    op_readd(w, r, M_UD2); op_readd(w, x, M_UD2); op_readd(w, t, M_UD2);
    op_trigger(w, u, NOTE_FFNOP, 0, true);
    op_adv(w, 10000000);
    op_collect(w, 0, 8);
    obj_ops(w);
    return w;
}
static Reg r_filters("reg_filters", mk_filters);
// index structure: every order of insertions and deletions of n idents; after each step every ident is looked up
static World *mk_tree(int n, bool perm)
{
    World *w = new World;
    std::vector<Slot *> ss;
    for (int i = 0; i < n; i++) ss.push_back(w->slot(fmt("U%d", i).c_str(), 0, EVFILT_USER, nullptr, 0, 10 + i));
    auto phase = std::make_shared<int>(0);
    w->on_begin = [=] { *phase = 0; };
    auto probe = [=] {
        // a no-op change succeeds exactly for the idents that are registered
        for (Slot *s : ss) w->change(s, 0, NOTE_FFNOP, 0, s->udata);
    };
    for (int i = 0; i < n; i++) {
        Slot *s = ss[i];
        w->op(fmt("flip%d", i), [=] { return !perm || (*phase == 0 ? !s->present : s->present); }, [=] {
            if (s->present) w->change(s, EV_DELETE, 0, 0, 0); else w->change(s, EV_ADD | EV_CLEAR, 0, 0, 0x1000 + i);
            probe();
            bool all = true;
            for (Slot *x : ss) if (!x->present) all = false;
            if (all) {
                *phase = 1;
                for (Slot *x : ss) w->change(x, 0, NOTE_TRIGGER, 0, x->udata);
                w->collect(0, 8);
            }
        });
    }
    return w;
}
static Reg r_tree4("tree4", [] { return mk_tree(4, false); });
static Reg r_tree5("tree5", [] { return mk_tree(5, false); });
static Reg r_tree6("tree6", [] { return mk_tree(6, false); });
static Reg r_treep5("treeperm5", [] { return mk_tree(5, true); });
static Reg r_treep6("treeperm6", [] { return mk_tree(6, true); });

// ================================================================ C04: change lists
// letters of the change alphabet; 'E' marks a change the model expects to fail
struct Letter { const char *nm; int slot; unsigned flags; uint32_t ff; int64_t data; short badfilt; };
static const Letter letters[] = {
    { "a", 0, EV_ADD | EV_CLEAR, 0, 0, 0 },                        // add U
    { "A", 0, EV_ADD | EV_CLEAR | EV_RECEIPT, 0, 0, 0 },           // add U, receipt
    { "t", 0, EV_ADD | EV_CLEAR, NOTE_TRIGGER | NOTE_FFNOP, 0, 0 },// trigger U (adds it when absent, without triggering)
    { "d", 0, EV_DELETE, 0, 0, 0 },                                // delete U (fails when absent)
    { "D", 0, EV_DELETE | EV_RECEIPT, 0, 0, 0 },
    { "E", 0, EV_ENABLE | EV_RECEIPT, 0, 0, 0 },                   // enable U with receipt (fails when absent)
    { "r", 1, EV_ADD, 0, 0, 0 },                                   // add R on a pipe
    { "x", 0, EV_ADD, 0, 0, -99 },                                 // unknown filter
    { "X", 0, EV_ADD | EV_RECEIPT, 0, 0, -99 },
    { "b", 2, EV_ADD, 0, 0, 0 },                                   // bad descriptor
    { "o", 0, EV_ADD | EV_ONESHOT | EV_DISPATCH, 0, 0, 0 },        // contradictory flags
};
enum { NL = sizeof letters / sizeof letters[0] };
static void do_list(World *w, const std::vector<int> &list, int nev, bool alias, int tmo)
{
    struct kevent ch[8], buf[16];
    std::vector<Change> cs;
    for (size_t i = 0; i < list.size(); i++) {
        const Letter &l = letters[list[i]];
        Change c{ w->slots[l.slot].get(), l.flags, l.ff, l.data, 0x5500 + i };
        c.badfilt = l.badfilt;
        cs.push_back(c);
        ch[i] = w->to_kev(c);
    }
    // reference
    struct Ent { int idx; int err; };
    std::vector<Ent> want;
    bool overflow = false;
    // the model is applied as we go: a list that overflows stops there
    for (size_t i = 0; i < cs.size() && !overflow; i++) {
        int e = w->model_change(cs[i]);
        if (e == 0 && !(cs[i].flags & EV_RECEIPT)) continue;
        if ((int)want.size() >= nev) { overflow = true; break; }
        want.push_back({ (int)i, e });
    }
    // expected waiting
    bool pend = false;
    for (auto &s : w->slots) if (s->ready() == MUST) pend = true;
    bool wait = !overflow && want.empty() && nev > 0 && !pend && tmo != 0;
    int64_t t0 = rt::vnow;
    struct timespec z = { 0, 0 }, five = { 0, 5000000 };
    memset(buf, 0x5a, sizeof buf);
    struct kevent *clist = ch, *elist = buf + 2;
    struct kevent shared[16];
    if (alias) {
        memset(shared, 0x5a, sizeof shared);
        memcpy(shared + 2, ch, sizeof ch[0] * list.size());
        clist = elist = shared + 2;
    }
    errno = 0;
    int r = rt::kq_event(w->kqs[0], clist, list.size(), nev ? elist : nullptr, nev, tmo == 0 ? &z : tmo == 1 ? &five : nullptr);
    int err = errno;
    const struct kevent *b = alias ? shared : buf;
    int lim = std::max(nev, alias ? (int)list.size() : 0);
    for (int i = 0; i < 16; i++) {
        if (i >= 2 && i < 2 + lim) continue;
        for (size_t j = 0; j < sizeof *b; j++) if (((const unsigned char *)&b[i])[j] != 0x5a) fail("entry %d outside the event list of %d was written", i - 2, nev);
    }
    if (alias) for (int i = nev; i < (int)list.size(); i++) if (memcmp(&shared[2 + i], &ch[i], sizeof ch[i])) fail("entry %d beyond the event list of %d was written", i, nev);
    bool blocked = rt::blocked_forever;
    rt::blocked_forever = false;
    if (!rt::faults_seen.empty()) fail("%s", rt::faults_seen[0].c_str());
    if (overflow) {
        if (r != -1) fail("no room for an error or receipt, but the call returned %d", r);
        if (err == 0) fail("no room for an error or receipt: -1 with errno 0");
        if (rt::vnow != t0 || blocked) fail("the call waited although a change failed");
        return;
    }
    if (wait) {
        if (tmo == 2) { if (!blocked) fail("nothing to return, no timeout, but the call returned %d", r); return; }
        if (r != 0) fail("nothing to return, but the call returned %d (errno %d)", r, err);
        if (rt::vnow - t0 != 5000000) fail("returned after %ld ns instead of the timeout", (long)(rt::vnow - t0));
        return;
    }
    if (blocked) fail("the call would block for ever although it has something to return");
    if (rt::vnow != t0) fail("the call waited %ld ns although it has something to return", (long)(rt::vnow - t0));
    if (r < 0) fail("call failed with errno %d", err);
    if (r > nev) fail("%d entries returned for a list of %d", r, nev);
    if (r < (int)want.size()) fail("%d entries returned, but the changes produced %zu errors/receipts", r, want.size());
    const struct kevent *out = alias ? shared + 2 : buf + 2;
    for (size_t i = 0; i < want.size(); i++) {
        const struct kevent &k = out[i];
        const Change &c = cs[want[i].idx];
        struct kevent ck = ch[want[i].idx];
        if (k.ident != ck.ident || k.filter != ck.filter || (uintptr_t)k.udata != c.udata) fail("entry %zu is %s, expected the outcome of change %d %s", i, kev_str(k).c_str(), want[i].idx, kev_str(ck).c_str());
        if (!(k.flags & EV_ERROR)) fail("entry %zu lacks the error flag: %s", i, kev_str(k).c_str());
        if (want[i].err == 0 ? k.data != 0 : want[i].err < 0 ? k.data <= 0 : k.data != want[i].err) fail("entry %zu reports errno %ld, expected %d", i, (long)k.data, want[i].err);
    }
    bool save = w->check_min;
    w->check_min = want.empty();
    try { w->process_events(0, out + want.size(), r - want.size(), nev - want.size(), "events"); } catch (...) { w->check_min = save; throw; }
    w->check_min = save;
}
static std::string list_name(const std::vector<int> &l) { std::string s; for (int i : l) s += letters[i].nm; return s; }
static void gen_lists(int maxlen, const std::vector<int> &alpha, std::vector<std::vector<int>> &out)
{
    std::vector<std::vector<int>> cur = { {} };
    for (int n = 1; n <= maxlen; n++) {
        std::vector<std::vector<int>> nx;
        for (auto &c : cur) for (int a : alpha) { auto d = c; d.push_back(a); nx.push_back(d); }
        out.insert(out.end(), nx.begin(), nx.end());
        cur = nx;
    }
}
static World *mk_cl(int state, int maxlen, const std::vector<int> &alpha, const std::vector<int> &nevs, const std::vector<int> &tmos, bool aliases)
{
    World *w = new World;
    Obj *p = mk_pipe(w, "pipe"); obj_notify_flags(p, 1 | 2);
    Slot *u = w->slot("U", 0, EVFILT_USER, nullptr, 0, 5);
    w->slot("R", 0, EVFILT_READ, p, 0);
    w->slot("B", 0, EVFILT_READ, nullptr, 0, 199);      // no such descriptor
    w->on_begin = [=] {
        if (state >= 1) w->change(u, EV_ADD | EV_CLEAR, 0, 0, 0x77);
        if (state == 2) w->change(u, EV_ADD | EV_CLEAR, NOTE_TRIGGER, 0, 0x77);
        if (state == 3) { w->change(w->slots[1].get(), EV_ADD, 0, 0, 0x88); for (auto &o : w->ops) if (o.name == "pipe.write") o.run(); }
    };
    std::vector<std::vector<int>> lists;
    gen_lists(maxlen, alpha, lists);
    for (auto &l : lists) for (int nev : nevs) for (int al = 0; al <= (aliases ? 1 : 0); al++) for (int t : tmos) {
        if (al && nev == 0) continue;
        w->op(fmt("list:%s/n%d%s/t%d", list_name(l).c_str(), nev, al ? "/alias" : "", t), always, [=] { do_list(w, l, nev, al, t); });
    }
    obj_ops(w);
    return w;
}
static std::vector<int> all_letters() { std::vector<int> v; for (int i = 0; i < NL; i++) v.push_back(i); return v; }
#define CL(n) static Reg r_cl##n##a("cl3_" #n, [] { return mk_cl(n, 3, all_letters(), { 0, 1, 2, 3, 4 }, { 0, 1, 2 }, true); }); \
              static Reg r_cl##n##b("cl4_" #n, [] { return mk_cl(n, 4, all_letters(), { 0, 1, 2, 3, 4, 5 }, { 0, 2 }, true); });
CL(0) CL(1) CL(2) CL(3)
static Reg r_clseq("clseq", [] { return mk_cl(0, 2, { 0, 1, 2, 3, 5, 7 }, { 0, 1, 2 }, { 0 }, false); });
// invalid descriptors
static World *mk_badkq()
{
    World *w = new World;
    Obj *p = mk_pipe(w, "pipe"); obj_notify_flags(p, 1 | 2);
    Slot *u = w->slot("U", 0, EVFILT_USER, nullptr, 0, 5);
    op_add(w, u, M_CLEAR); op_trigger(w, u, NOTE_FFNOP, 0, true); op_delete(w, u); op_collect(w, 0, 2);
    auto bad = [=](int fd, const char *what) {
        struct kevent k, out[2];
        EV_SET(&k, 5, EVFILT_USER, EV_ADD, 0, 0, nullptr);
        struct timespec z = { 0, 0 };
        for (int i = 0; i < 3; i++) {
            errno = 0;
            int r = rt::kq_event(fd, &k, i == 1 ? 0 : 1, out, i == 2 ? 0 : 2, &z);
            if (r != -1 || errno == 0) fail("kevent on %s (%d) returned %d, errno %d", what, fd, r, errno);
        }
        w->check_rt(what);
    };
    w->op("badkq.-1", always, [=] { bad(-1, "descriptor -1"); });
    w->op("badkq.min", always, [=] { bad(-2147483647 - 1, "the smallest int"); });
    w->op("badkq.max", always, [=] { bad(2147483647, "the largest int"); });
    w->op("badkq.limit", always, [=] { bad(w->nofile, "the descriptor limit"); });
    w->op("badkq.limit-1", always, [=] { bad(w->nofile - 1, "the highest possible descriptor"); });
    w->op("badkq.pipe", always, [=] { bad(w->objs[0]->fd(0), "a pipe descriptor"); });
    w->op("badkq.unused", always, [=] { bad(150, "an unused descriptor"); });
    obj_ops(w);
    return w;
}
static Reg r_badkq("badkq", mk_badkq);

// ================================================================ C07: both directions of one descriptor
static World *mk_rw(int which)
{
    World *w = new World;
    Obj *o = which == 2 ? mk_file(w, "file") : which == 4 ? mk_tcp(w, "tcp") : which == 5 ? mk_ev(w, "ev") : which == 7 ? mk_udp(w, "udp") : which == 8 ? mk_dupsock(w, "sock") : mk_sock(w, "sock", which == 1 ? SOCK_DGRAM : which == 6 ? SOCK_SEQPACKET : SOCK_STREAM);
    if (which == 0) obj_notify_flags(o, 1 | 2 | 4 | 8 | 16 | 32);
    if (which == 1) obj_notify_flags(o, 1 | 2 | 16 | 32);
    if (which == 3) obj_notify_flags(o, 1 | 2 | 8);
    if (which == 6 || which == 8) obj_notify_flags(o, 1 | 2 | 4 | 16 | 32);
    Slot *r = w->slot("R", 0, EVFILT_READ, o, 0), *x = w->slot("W", 0, EVFILT_WRITE, o, which == 8 ? 7 : 0);
    std::vector<Slot *> ss = { r, x };
    if (which == 8) ss.push_back(w->slot("R7", 0, EVFILT_READ, o, 7));
    for (Slot *s : ss) {
        op_add(w, s, M_LEVEL); op_add(w, s, M_ONESHOT); op_add(w, s, M_DISPATCH);
        if (which == 3) { op_add(w, s, M_CLEAR); op_add(w, s, M_DIS | M_CLEAR); }
        op_enable(w, s); op_disable(w, s); op_delete(w, s);
        if (which != 3) op_readd(w, s, M_UD2);
    }
    op_collect(w, 0, 1); op_collect(w, 0, 2); op_collect(w, 0, 4);
    op_drain1(w, 0);
    obj_ops(w);
    return w;
}
static Reg r_rw0("rw_sock", [] { return mk_rw(0); }), r_rw1("rw_dgram", [] { return mk_rw(1); }), r_rw2("rw_file", [] { return mk_rw(2); }), r_rw3("rw_clear", [] { return mk_rw(3); }),
    r_rw4("rw_tcp", [] { return mk_rw(4); }), r_rw5("rw_ev", [] { return mk_rw(5); }), r_rw6("rw_seq", [] { return mk_rw(6); }), r_rw7("rw_udp", [] { return mk_rw(7); }), r_rw8("rw_dup", [] { return mk_rw(8); });

// ================================================================ C08: small event lists
static World *mk_multi(int variant)
{
    World *w = new World;
    w->fair = true;
    std::vector<Slot *> pre;
    std::vector<int> modes;
    auto reg = [&](Slot *s, int m) { pre.push_back(s); modes.push_back(m); };
    if (variant == 0) {          // level + clear + oneshot + dispatch over different filters
        Obj *p = mk_pipe(w, "pipe"); obj_notify_flags(p, 1 | 2);
        Slot *r = w->slot("R", 0, EVFILT_READ, p, 0);
        Slot *u = w->slot("U", 0, EVFILT_USER, nullptr, 0, 5), *u2 = w->slot("U2", 0, EVFILT_USER, nullptr, 0, 6);
        Slot *t = w->slot("T", 0, EVFILT_TIMER, nullptr, 0, 7); t->per = 10;
        reg(r, M_LEVEL); reg(u, M_CLEAR); reg(u2, M_ONESHOT); reg(t, M_LEVEL);
        op_trigger(w, u, NOTE_FFNOP, 0, true); op_trigger(w, u2, NOTE_FFNOP, 0, true);
        op_add(w, u2, M_ONESHOT);
        op_adv(w, 10000000);
    } else if (variant == 1) {   // edge-triggered descriptors
        for (int i = 0; i < 3; i++) {
            Obj *p = mk_pipe(w, fmt("p%d", i).c_str()); obj_notify_flags(p, 1 | 2);
            reg(w->slot(fmt("R%d", i).c_str(), 0, EVFILT_READ, p, 0), M_CLEAR);
        }
    } else if (variant == 2) {   // descriptors with both directions
        Obj *p = mk_sock(w, "s", SOCK_STREAM); obj_notify_flags(p, 1 | 2 | 8);
        Obj *q = mk_sock(w, "q", SOCK_STREAM); obj_notify_flags(q, 1 | 2);
        reg(w->slot("R", 0, EVFILT_READ, p, 0), M_LEVEL); reg(w->slot("W", 0, EVFILT_WRITE, p, 0), M_LEVEL);
        reg(w->slot("QR", 0, EVFILT_READ, q, 0), M_LEVEL); reg(w->slot("QW", 0, EVFILT_WRITE, q, 0), M_DISPATCH);
        op_enable(w, w->slots[3].get());
    } else if (variant == 3) {   // signals, children, dispatch
        Obj *s1 = mk_sig(w, "usr1", SIGUSR1), *s2 = mk_sig(w, "rt", SIGRTMIN + 4);
        Obj *c = mk_child(w, "child"); obj_notify_flags(c, 2);
        Obj *p = mk_pipe(w, "pipe"); obj_notify_flags(p, 1 | 2);
        reg(w->slot("S1", 0, EVFILT_SIGNAL, s1, 0, SIGUSR1), M_LEVEL);
        reg(w->slot("S2", 0, EVFILT_SIGNAL, s2, 0, SIGRTMIN + 4), M_LEVEL);
        reg(w->slot("P", 0, EVFILT_PROC, c, 0), M_LEVEL);
        reg(w->slot("R", 0, EVFILT_READ, p, 0), M_DISPATCH);
        op_enable(w, w->slots[3].get());
    } else if (variant == 4) {   // four user events, all modes
        static const int ms[] = { M_LEVEL, M_CLEAR, M_ONESHOT, M_DISPATCH };
        for (int i = 0; i < 4; i++) {
            Slot *s = w->slot(fmt("U%d", i).c_str(), 0, EVFILT_USER, nullptr, 0, i);
            reg(s, ms[i]);
            op_trigger(w, s, NOTE_FFNOP, 0, true);
        }
        op_enable(w, w->slots[3].get());
        op_add(w, w->slots[2].get(), M_ONESHOT);
    } else {                     // files (always ready) next to pipes
        Obj *f = mk_file(w, "file"), *p = mk_pipe(w, "pipe"); obj_notify_flags(p, 1 | 2);
        reg(w->slot("FR", 0, EVFILT_READ, f, 0), M_LEVEL); reg(w->slot("FW", 0, EVFILT_WRITE, f, 0), M_LEVEL);
        reg(w->slot("R", 0, EVFILT_READ, p, 0), M_LEVEL);
        Slot *t = w->slot("T", 0, EVFILT_TIMER, nullptr, 0, 7); t->per = 10;
        reg(t, M_ONESHOT);
        op_adv(w, 10000000);
        op_enable(w, w->slots[0].get());
    }
    w->on_begin = [=] {
        for (size_t i = 0; i < pre.size(); i++) {
            unsigned f = EV_ADD | (modes[i] & M_ONESHOT ? EV_ONESHOT : 0) | (modes[i] & M_DISPATCH ? EV_DISPATCH : 0) | (modes[i] & M_CLEAR ? EV_CLEAR : 0);
            w->change(pre[i], f, pre[i]->areq, pre[i]->per, 0x9000 + i);
        }
    };
    op_collect(w, 0, 1); op_collect(w, 0, 2); op_collect(w, 0, 3);
    op_drain1(w, 0);
    obj_ops(w);
    return w;
}
#define MULTI(n) static Reg r_multi##n("multi" #n, [] { return mk_multi(n); });
MULTI(0) MULTI(1) MULTI(2) MULTI(3) MULTI(4) MULTI(5)
// backlogs around the internal limit
static World *mk_backlog()
{
    World *w = new World;
    w->nofile = 2048;
    auto pend = std::make_shared<std::vector<int>>();
    auto total = std::make_shared<int>(0);
    w->on_begin = [=] { pend->clear(); *total = 0; };
    w->on_end = [=] {
        for (int i = 0; i < *total; i++) {
            struct kevent k; EV_SET(&k, 1000 + i, EVFILT_USER, EV_DELETE, 0, 0, nullptr);
            if (rt::kq_event(w->kqs[0], &k, 1, nullptr, 0, nullptr) != 0) fail("delete number %d failed, errno %d", i, errno);
        }
    };
    w->extra_hash = [=](Hash &h) { h.add(*total); int p = 0; for (int x : *pend) p += x; h.add(p); };
    auto cnt = [=] { int p = 0; for (int x : *pend) p += x; return p; };
    for (int n : { 1, 511, 512, 513, 600 })
        w->op(fmt("post%d", n), [=] { return cnt() + n <= 700; }, [=] {
            // register what is missing and trigger n that are not pending
            int left = n;
            for (int i = 0; left > 0; i++) {
                if (i >= *total) {
                    struct kevent k; EV_SET(&k, 1000 + i, EVFILT_USER, EV_ADD | EV_CLEAR, 0, 0, (void *)(uintptr_t)(7000 + i));
                    if (rt::kq_event(w->kqs[0], &k, 1, nullptr, 0, nullptr) != 0) fail("add number %d failed, errno %d", i, errno);
                    (*total)++; pend->push_back(0);
                }
                if ((*pend)[i]) continue;
                struct kevent k; EV_SET(&k, 1000 + i, EVFILT_USER, EV_ADD | EV_CLEAR, NOTE_TRIGGER, 0, (void *)(uintptr_t)(7000 + i));
                if (rt::kq_event(w->kqs[0], &k, 1, nullptr, 0, nullptr) != 0) fail("trigger number %d failed, errno %d", i, errno);
                (*pend)[i] = 1; left--;
            }
            w->check_rt("post");
        });
    for (int k : { 1, 100, 511, 512, 513, 1024 })
        w->op(fmt("take%d", k), always, [=] {
            std::vector<struct kevent> b(k + 4);
            memset(b.data(), 0x5a, b.size() * sizeof b[0]);
            struct timespec z = { 0, 0 };
            int p = cnt();
            int r = rt::kq_event(w->kqs[0], nullptr, 0, b.data() + 2, k, &z);
            w->check_rt("take");
            for (int i : { 0, 1, k + 2, k + 3 }) for (size_t j = 0; j < sizeof b[0]; j++) if (((unsigned char *)&b[i])[j] != 0x5a) fail("kevent wrote outside the %d entries of the event list", k);
            int want = std::min(p, k);
            // one call hands out at most the library's internal batch (512)
            if (r > k || r < std::min(want, 512) || r > p) fail("%d events returned, %d pending, room for %d", r, p, k);
            for (int i = 0; i < r; i++) {
                long id = (long)b[2 + i].ident - 1000;
                if (b[2 + i].filter != EVFILT_USER || id < 0 || id >= *total) fail("strange event %s", kev_str(b[2 + i]).c_str());
                if (!(*pend)[id]) fail("event %ld returned twice or not triggered", id);
                if ((uintptr_t)b[2 + i].udata != (uintptr_t)(7000 + id)) fail("event %ld carries udata %p", id, b[2 + i].udata);
                (*pend)[id] = 0;
            }
        });
    return w;
}
static Reg r_backlog("backlog", mk_backlog);

// ================================================================ C04: long change lists
// n changes in one call: a add, r add with receipt, f delete of an absent registration
static World *mk_cllong()
{
    World *w = new World;
    w->nofile = 2048;
    static const char *pats[] = { "alladd", "allreceipt", "allfail", "fail0", "failmid", "faillast", "mix" };
    for (int n : { 1, 2, 3, 8, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 600, 1025 })
        for (const char *pat : pats) for (int rm = 0; rm < 5; rm++) for (int alias = 0; alias < 2; alias++) {
            if (alias && rm != 4) continue;
            w->op(fmt("%s.%d.room%d%s", pat, n, rm, alias ? ".same" : ""), always, [=] {
                std::string P(pat), k(n, 'a');
                if (P == "allreceipt") k.assign(n, 'r');
                if (P == "allfail") k.assign(n, 'f');
                if (P == "fail0") k[0] = 'f';
                if (P == "failmid") k[n / 2] = 'f';
                if (P == "faillast") k[n - 1] = 'f';
                if (P == "mix") for (int i = 0; i < n; i++) k[i] = "arf"[(i * 7 + i / 5) % 3];
                int ent = 0;
                for (char c : k) ent += c != 'a';
                int room = rm == 0 ? 0 : rm == 1 ? 1 : rm == 2 ? std::max(ent - 1, 0) : rm == 3 ? ent : n + 1;
                std::vector<struct kevent> ch(n), buf(std::max(n, room) + 4);
                memset(buf.data(), 0x5a, buf.size() * sizeof buf[0]);
                for (int i = 0; i < n; i++)
                    EV_SET(&ch[i], 5000 + i, EVFILT_USER, k[i] == 'f' ? EV_DELETE : EV_ADD | (k[i] == 'r' ? EV_RECEIPT : 0), 0, 0, (void *)(uintptr_t)(90000 + i));
                struct timespec z = { 0, 0 };
                if (alias) std::copy(ch.begin(), ch.end(), buf.begin() + 2);
                errno = 0;
                int r = rt::kq_event(w->kqs[0], alias ? buf.data() + 2 : ch.data(), n, buf.data() + 2, alias ? n : room, &z);
                int e = errno;
                if (alias) room = n;
                w->check_rt("long change list");
                for (int i : { 0, 1, (alias ? n : room) + 2, (alias ? n : room) + 3 }) for (size_t j = 0; j < sizeof buf[0]; j++) if (((unsigned char *)&buf[i])[j] != 0x5a) fail("kevent wrote outside the %d entries of the event list", room);
                int seen = 0, upto = n, unsure = -1;
                for (int i = 0; i < n; i++) if (k[i] != 'a' && ++seen > room) { upto = i; unsure = k[i] == 'r' ? i : -1; break; }
                if (upto < n) {
                    if (r != -1 || e == 0) fail("%d changes with %d failures and receipts and room for %d returned %d (errno %d)", n, ent, room, r, e);
                } else {
                    if (r != ent) fail("%d changes with %d failures and receipts and room for %d returned %d (errno %d)", n, ent, room, r, e);
                    for (int i = 0, o = 2; i < n; i++) if (k[i] != 'a') {
                        struct kevent &x = buf[o++];
                        if (x.ident != (uintptr_t)(5000 + i) || x.filter != EVFILT_USER || !(x.flags & EV_ERROR) || x.udata != (void *)(uintptr_t)(90000 + i) || x.data != (k[i] == 'f' ? ENOENT : 0))
                            fail("entry %d of %d belongs to change %d (%s) but is %s", o - 3, ent, i, k[i] == 'f' ? "fails" : "receipt", kev_str(x).c_str());
                    }
                }
                for (int i = 0; i < n; i++) {
                    struct kevent d; EV_SET(&d, 5000 + i, EVFILT_USER, EV_DELETE, 0, 0, nullptr);
                    errno = 0;
                    int q = rt::kq_event(w->kqs[0], &d, 1, nullptr, 0, nullptr);
                    bool there = q == 0, want = k[i] != 'f' && i < upto;
                    if (i == unsure) continue;
                    if (there != want) fail("change %d of %d %s", i, n, want ? "was not applied" : "was applied after the call had failed");
                }
            });
        }
    return w;
}
static Reg r_cllong("cllong", mk_cllong);

// descriptors that cannot be waited for: 0 /dev/null, 1 a directory, 2 a file that is gone, 3 a pipe (for VNODE)
struct NoPollObj : Obj {
    int f[4], other;
    void setup() override
    {
        f[0] = open("/dev/null", O_RDWR | O_CLOEXEC); f[1] = open("/proc/self", O_RDONLY | O_DIRECTORY | O_CLOEXEC);
        f[2] = memfd_create("gone", MFD_CLOEXEC);
        int p[2];
        if (pipe2(p, O_CLOEXEC)) abort();
        f[3] = p[0]; other = p[1];
        for (int x : f) if (x < 0) abort();
    }
    void teardown() override { for (int x : f) close(x); close(other); }
    void hash(Hash &) override {}
    int fd(int s) override { return f[s]; }
};

// ================================================================ changes that cannot succeed leave nothing behind
static World *mk_badreg_part(int part)
{
    World *w = new World;
    Obj *p = mk_pipe(w, "pipe"); obj_notify_flags(p, 1 | 2);
    Slot *u = w->slot("U", 0, EVFILT_USER, nullptr, 0, 5), *r = w->slot("R", 0, EVFILT_READ, p, 0);
    auto *np = new NoPollObj; np->name = "np"; w->obj(np);
    auto dead = std::make_shared<int>(-1);
    auto deadpid = std::make_shared<int>(-1);
    w->on_begin = [=] {
        *dead = 240;                       // a number nothing uses
        *deadpid = 0x3fffffff;             // beyond any pid
    };
    struct B { const char *nm; short f; int kind; uint32_t ff; };
    static const B bs[] = {
        { "read.closed", EVFILT_READ, 0, 0 }, { "write.closed", EVFILT_WRITE, 0, 0 }, { "vnode.closed", EVFILT_VNODE, 0, NOTE_WRITE | NOTE_DELETE },
        { "read.neg", EVFILT_READ, 1, 0 }, { "write.neg", EVFILT_WRITE, 1, 0 }, { "vnode.neg", EVFILT_VNODE, 1, NOTE_WRITE },
        { "proc.dead", EVFILT_PROC, 2, NOTE_EXIT },
        { "filter0", 0, 3, 0 }, { "filter1", 1, 3, 0 }, { "filtermin", -32768, 3, 0 }, { "filtermax", 32767, 3, 0 }, { "filtercount", -(EVFILT_SYSCOUNT + 1), 3, 0 },
        // (what exists but cannot be waited for)
        { "read.null", EVFILT_READ, 10, 0 }, { "write.null", EVFILT_WRITE, 10, 0 }, { "read.dir", EVFILT_READ, 11, 0 }, { "write.dir", EVFILT_WRITE, 11, 0 },
        { "vnode.gone", EVFILT_VNODE, 12, NOTE_WRITE }, { "vnode.pipe", EVFILT_VNODE, 13, NOTE_WRITE | NOTE_DELETE },
    };
    for (auto &b : bs) if ((b.kind >= 10) == (part == 1)) for (int fl = 0; fl < 5; fl++) for (int how = 0; how < 2; how++) {
        static const unsigned fls[] = { EV_ADD, EV_ADD | EV_ONESHOT, EV_ADD | EV_DISPATCH | EV_CLEAR, EV_ADD | EV_DISABLE, EV_ADD | EV_RECEIPT };
        static const char *fln[] = { "", "1", "dc", "off", "!" };
        w->op(fmt("%s%s%s", b.nm, fln[fl], how ? "" : ".nolist"), always, [=] {
            uintptr_t id = b.kind == 0 ? *dead : b.kind == 1 ? (uintptr_t)-1 : b.kind == 2 ? *deadpid : b.kind >= 10 ? np->fd(b.kind - 10) : 5;
            rt::Ledger a = rt::ledger();
            struct kevent k, o[2];
            EV_SET(&k, id, b.f, fls[fl], b.ff, 0, (void *)0x77);
            struct timespec z = { 0, 0 };
            errno = 0;
            int n = rt::kq_event(w->kqs[0], &k, 1, o, how ? 2 : 0, &z);
            int e = errno;
            w->check_rt("impossible change");
            if (!how) { if (n != -1 || !e) fail("an impossible change returned %d, errno %d", n, e); }
            else {
                if (n != 1 || !(o[0].flags & EV_ERROR) || o[0].data == 0) fail("an impossible change returned %d%s%s", n, n > 0 ? ": " : "", n > 0 ? kev_str(o[0]).c_str() : "");
                if (o[0].ident != id || o[0].filter != b.f || o[0].udata != (void *)0x77) fail("the error entry does not belong to the change: %s", kev_str(o[0]).c_str());
            }
            EV_SET(&k, id, b.f, EV_DELETE, 0, 0, nullptr);
            errno = 0;
            n = rt::kq_event(w->kqs[0], &k, 1, nullptr, 0, nullptr);
            if (n != -1 || (b.kind != 3 && errno != ENOENT)) fail("deleting a registration whose addition failed returned %d, errno %d", n, errno);
            rt::Ledger c = rt::ledger();
            if (a.fds != c.fds || a.blocks != c.blocks) fail("a failed addition left %ld descriptors and %ld blocks behind", c.fds - a.fds, c.blocks - a.blocks);
            w->check_rt("impossible change");
        });
    }
    // a change that names no action: refused for what does not exist, without an answer for what does
    if (part == 0) for (unsigned fl : { 0u, (unsigned)EV_CLEAR, (unsigned)EV_ONESHOT, (unsigned)EV_DISPATCH }) for (short f : { (short)EVFILT_USER, (short)EVFILT_TIMER, (short)EVFILT_SIGNAL })
        w->op(fmt("noaction%x.%d", fl, -f), always, [=] {
            struct kevent k, o[2];
            struct timespec z = { 0, 0 };
            const uintptr_t id = f == EVFILT_SIGNAL ? SIGUSR2 : 91;
            rt::Ledger a = rt::ledger();
            EV_SET(&k, id, f, fl, 0, 1000, (void *)0x78);
            int n = rt::kq_event(w->kqs[0], &k, 1, o, 1, &z);
            if (n != 1 || !(o[0].flags & EV_ERROR) || o[0].data != ENOENT || o[0].udata != (void *)0x78) fail("a change of an unknown registration returned %d", n);
            k.flags = EV_ADD;
            n = rt::kq_event(w->kqs[0], &k, 1, o, 0, nullptr);
            if (n != 0) fail("the registration returned %d, errno %d", n, errno);
            k.flags = fl;
            n = rt::kq_event(w->kqs[0], &k, 1, o, 0, nullptr);
            if (n != 0) fail("a change without an action returned %d, errno %d", n, errno);
            k.flags = EV_DELETE;
            n = rt::kq_event(w->kqs[0], &k, 1, o, 0, nullptr);
            if (n != 0) fail("the deletion returned %d, errno %d", n, errno);
            rt::Ledger b = rt::ledger();
            if (a.fds != b.fds || a.blocks != b.blocks) fail("%ld descriptors and %ld blocks left behind", b.fds - a.fds, b.blocks - a.blocks);
            w->check_rt("change without an action");
        });
    op_add(w, u, M_CLEAR); op_trigger(w, u, NOTE_FFNOP, 0, true); op_delete(w, u);
    op_add(w, r, M_LEVEL); op_delete(w, r);
    op_collect(w, 0, 3);
    obj_ops(w);
    return w;
}
static Reg r_badreg("badreg", [] { return mk_badreg_part(0); }), r_badreg2("badreg2", [] { return mk_badreg_part(1); });

// ================================================================ C09: timers
static World *mk_timer(int variant)
{
    World *w = new World;
    Slot *t = w->slot("T", 0, EVFILT_TIMER, nullptr, 0, 5);
    t->per = 10;
    struct P { const char *nm; uint32_t ff; int64_t data; unsigned fl; };
    std::vector<P> ps;
    if (variant == 0) ps = { { "10ms", 0, 10, 0 }, { "3us", NOTE_USECONDS, 3, 0 }, { "7ns", NOTE_NSECONDS, 7, 0 }, { "1s", NOTE_SECONDS, 1, 0 }, { "2ms1", 0, 2, EV_ONESHOT } };
    if (variant == 1) ps = { { "1500ms", 0, 1500, 0 }, { "2000001us", NOTE_USECONDS, 2000001, 0 }, { "3000000007ns", NOTE_NSECONDS, 3000000007ll, 0 }, { "2s1", NOTE_SECONDS, 2, EV_ONESHOT }, { "4sD", NOTE_SECONDS, 4, EV_DISPATCH } };
    if (variant == 2) ps = { { "abs1000003ms", NOTE_ABSOLUTE, 1000003, EV_ONESHOT }, { "abs1000s", NOTE_ABSOLUTE | NOTE_SECONDS, 1000, EV_ONESHOT }, { "abs5us", NOTE_ABSOLUTE | NOTE_USECONDS, 1000002500ll, EV_ONESHOT }, { "absns", NOTE_ABSOLUTE | NOTE_NSECONDS, 1000000000007ll, EV_ONESHOT }, { "5ms", 0, 5, 0 } };
    if (variant == 3) ps = { { "min", 0, 1, 0 }, { "day", NOTE_SECONDS, 86400, 0 }, { "years", NOTE_SECONDS, 3000000000ll, EV_ONESHOT }, { "bigms", 0, 5000000000000ll, EV_ONESHOT } };
    if (variant == 4) ps = { { "1ns", NOTE_NSECONDS, 1, 0 }, { "3us", NOTE_USECONDS, 3, 0 }, { "2ms", 0, 2, 0 }, { "5nsD", NOTE_NSECONDS, 5, EV_DISPATCH }, { "1nsC", NOTE_NSECONDS, 1, EV_CLEAR } };
    for (auto &p : ps) {
        if (variant == 3) op_change(w, t, std::string("set") + p.nm, EV_ADD | p.fl, p.ff, p.data, [] { return rt::vnow < 2000000000000000000ll; });   // the clock is 64-bit ns
        else op_change(w, t, std::string("set") + p.nm, EV_ADD | p.fl, p.ff, p.data);
        if (variant != 2 && variant != 3) op_change(w, t, std::string("dis") + p.nm, EV_ADD | EV_DISABLE | p.fl, p.ff, p.data, [=] { return !t->present; });
    }
    w->op("T.enable", [=] { return t->present; }, [=] { w->change(t, EV_ENABLE, 0, 0, t->udata); });
    w->op("T.disable", [=] { return t->present; }, [=] { w->change(t, EV_DISABLE, 0, 0, t->udata); });
    op_delete(w, t);
    op_collect(w, 0, 2);
    auto adv = [&](int64_t ns) { w->op(fmt("adv%ldns", (long)ns), [] { return rt::vnow < 40000000000000000ll; }, [=] { rt::vclock_advance(ns); }); };
    // to just before / exactly at / well past the next expiry
    w->op("adv.almost", [=] { return t->armed && t->next > rt::vnow + 1; }, [=] { rt::vclock_advance(t->next - 1 - rt::vnow); });
    w->op("adv.exact", [=] { return t->armed && t->next > rt::vnow; }, [=] { rt::vclock_advance(t->next - rt::vnow); });
    w->op("adv.twice", [=] { return t->armed && t->interval > 0 && t->next + t->interval > rt::vnow; }, [=] { rt::vclock_advance(t->next + t->interval - rt::vnow); });
    adv(1);
    if (variant == 0) adv(4000000);
    if (variant == 1) adv(2500000000ll);
    if (variant == 4) for (int64_t n : { 127ll, 255ll, 40000ll, 65535ll, 3000000000ll, 4294967295ll })
        w->op(fmt("adv.x%ld", (long)n), [=] { return t->armed && t->interval > 0 && t->next > rt::vnow && t->interval < 40000000000000000ll / n; }, [=] { rt::vclock_advance(t->next + t->interval * n - rt::vnow); });
    return w;
}
static Reg r_tm0("timer_units", [] { return mk_timer(0); }), r_tm1("timer_long", [] { return mk_timer(1); }), r_tm2("timer_abs", [] { return mk_timer(2); }), r_tm3("timer_extreme", [] { return mk_timer(3); }), r_tm5("timer_count", [] { return mk_timer(4); });
static World *mk_timers2()
{
    World *w = new World;
    Slot *a = w->slot("A", 0, EVFILT_TIMER, nullptr, 0, 1), *b = w->slot("B", 0, EVFILT_TIMER, nullptr, 0, 2);
    a->per = 10; b->per = 4;
    for (Slot *s : { a, b }) { op_add(w, s, M_LEVEL); op_add(w, s, M_ONESHOT); op_add(w, s, M_DISPATCH); op_enable(w, s); op_disable(w, s); op_delete(w, s); }
    op_adv(w, 4000000); op_adv(w, 10000000);
    op_collect(w, 0, 1); op_collect(w, 0, 4);
    return w;
}
static Reg r_tm4("timers2", mk_timers2);

// ================================================================ C10: user flags
static World *mk_user(int mode)
{
    World *w = new World;
    Slot *u = w->slot("U", 0, EVFILT_USER, nullptr, 0, 5);
    op_add(w, u, mode);
    op_change(w, u, "addff", EV_ADD | (mode & M_CLEAR ? EV_CLEAR : 0) | (mode & M_DISPATCH ? EV_DISPATCH : 0) | (mode & M_ONESHOT ? EV_ONESHOT : 0), NOTE_FFCOPY | 0xf0f0f0, 0, [=] { return !u->present; });
    for (int trig = 0; trig < 2; trig++) {
        op_trigger(w, u, NOTE_FFNOP, 0x00ff00, trig);
        op_trigger(w, u, NOTE_FFAND, 0x8000ff, trig);
        op_trigger(w, u, NOTE_FFOR, 0x010101, trig);
        op_trigger(w, u, NOTE_FFCOPY, 0xffffff, trig);
        op_trigger(w, u, NOTE_FFCOPY, 0x000001, trig);
    }
    op_enable(w, u); op_disable(w, u); op_delete(w, u);
    op_collect(w, 0, 1);
    return w;
}
static Reg r_us0("user_level", [] { return mk_user(M_LEVEL); }), r_us1("user_clear", [] { return mk_user(M_CLEAR); }), r_us2("user_oneshot", [] { return mk_user(M_ONESHOT); }), r_us3("user_dispatch", [] { return mk_user(M_DISPATCH); });

// ================================================================ C11: signals
static World *mk_sigs(int mode)
{
    World *w = new World;
    Obj *o1 = mk_sig(w, "usr1", SIGUSR1), *o2 = mk_sig(w, "usr2", SIGUSR2), *o3 = mk_sig(w, "rt", SIGRTMIN + 4);
    Slot *a = w->slot("S1", 0, EVFILT_SIGNAL, o1, 0, SIGUSR1), *b = w->slot("S2", 0, EVFILT_SIGNAL, o2, 0, SIGUSR2), *c = w->slot("S3", 0, EVFILT_SIGNAL, o3, 0, SIGRTMIN + 4);
    for (Slot *s : { a, b, c }) { op_add(w, s, mode); op_enable(w, s); op_disable(w, s); op_delete(w, s); }
    op_collect(w, 0, 1); op_collect(w, 0, 4);
    obj_ops(w);
    return w;
}
// numbers at the ends of the range
static World *mk_sigs_edge()
{
    World *w = new World;
    for (int n : { SIGHUP, SIGSYS, SIGRTMAX }) {
        Obj *o = mk_sig(w, fmt("sig%d", n).c_str(), n);
        Slot *s = w->slot(fmt("S%d", n).c_str(), 0, EVFILT_SIGNAL, o, 0, n);
        op_add(w, s, M_LEVEL); op_delete(w, s); op_disable(w, s);
    }
    op_collect(w, 0, 1); op_collect(w, 0, 4);
    obj_ops(w);
    return w;
}
static Reg r_sg3("sigs_edge", mk_sigs_edge);
static Reg r_sg0("sigs_level", [] { return mk_sigs(M_LEVEL); }), r_sg1("sigs_oneshot", [] { return mk_sigs(M_ONESHOT); }), r_sg2("sigs_dispatch", [] { return mk_sigs(M_DISPATCH); });

// ================================================================ C12: children
static World *mk_procs(int variant)
{
    World *w = new World;
    if (variant == 0) {          // every way of terminating, reaping before the event is collected
        Obj *c = mk_child(w, "child"); obj_notify_flags(c, 5);
        Slot *p = w->slot("P", 0, EVFILT_PROC, c, 0);
        op_add(w, p, M_LEVEL); op_add(w, p, M_ONESHOT); op_add(w, p, M_DIS);
        op_enable(w, p); op_disable(w, p); op_delete(w, p); op_readd(w, p, M_UD2);
        op_change(w, p, "addquiet", EV_ADD, 0, 0, [=] { return !p->present; });      // not asking for anything
        op_collect(w, 0, 1);
    } else if (variant == 1) {   // two children
        for (int i = 0; i < 2; i++) {
            Obj *c = mk_child(w, fmt("c%d", i).c_str()); obj_notify_flags(c, 2);
            Slot *p = w->slot(fmt("P%d", i).c_str(), 0, EVFILT_PROC, c, 0);
            op_add(w, p, M_LEVEL); op_enable(w, p); op_disable(w, p); op_delete(w, p);
        }
        op_collect(w, 0, 1); op_collect(w, 0, 2);
    } else {                     // one child in two kqueues
        w->nkq = 2;
        Obj *c = mk_child(w, "child"); obj_notify_flags(c, 2);
        for (int i = 0; i < 2; i++) {
            Slot *p = w->slot(fmt("P%d", i).c_str(), i, EVFILT_PROC, c, 0);
            op_add(w, p, M_LEVEL); op_enable(w, p); op_disable(w, p); op_delete(w, p);
            op_collect(w, i, 1);
        }
    }
    obj_ops(w);
    return w;
}
static Reg r_pr0("proc_status", [] { return mk_procs(0); }), r_pr1("proc_two", [] { return mk_procs(1); }), r_pr2("proc_kq2", [] { return mk_procs(2); });

// ================================================================ C13: files
static World *mk_vn(uint32_t req, int mode, int ops)
{
    World *w = new World;
    Obj *v = mk_vfile(w, "vf"); obj_notify_flags(v, ops);
    Slot *s = w->slot("V", 0, EVFILT_VNODE, v, 0); s->areq = req;
    w->on_begin = [=] { w->change(s, EV_ADD | (mode & M_ONESHOT ? EV_ONESHOT : 0) | (mode & M_DISPATCH ? EV_DISPATCH : 0), req, 0, 0x4242); };
    op_collect(w, 0, 1);
    if (mode & M_DISPATCH) op_enable(w, s);
    obj_ops(w);
    return w;
}
#define VN(nm, req, mode) static Reg r_vn_##nm("vn_" #nm, [] { return mk_vn(req, mode, 0x1ff); });
VN(write, NOTE_WRITE, 0) VN(extend, NOTE_EXTEND, 0) VN(attrib, NOTE_ATTRIB, 0) VN(link, NOTE_LINK, 0) VN(rename, NOTE_RENAME, 0) VN(delete, NOTE_DELETE, 0)
VN(all, NOTE_WRITE | NOTE_EXTEND | NOTE_ATTRIB | NOTE_LINK | NOTE_RENAME | NOTE_DELETE, 0)
VN(wrdel, NOTE_WRITE | NOTE_DELETE, 0) VN(attrlink, NOTE_ATTRIB | NOTE_LINK, 0) VN(extren, NOTE_EXTEND | NOTE_RENAME, 0)
VN(one_all, NOTE_WRITE | NOTE_EXTEND | NOTE_ATTRIB | NOTE_LINK | NOTE_RENAME | NOTE_DELETE, M_ONESHOT)
VN(one_link, NOTE_LINK, M_ONESHOT) VN(one_write, NOTE_WRITE, M_ONESHOT)
VN(disp_all, NOTE_WRITE | NOTE_EXTEND | NOTE_ATTRIB | NOTE_RENAME, M_DISPATCH)
#define VNS(nm, req, mode) static Reg r_vns_##nm("vns_" #nm, [] { return mk_vn(req, mode, 1 | 2 | 4); });       // contents only
#define VNN(nm, req, mode) static Reg r_vnn_##nm("vnn_" #nm, [] { return mk_vn(req, mode, 8 | 16 | 32 | 64 | 128); });   // names and attributes only
VNS(write, NOTE_WRITE, 0) VNS(extend, NOTE_EXTEND, 0) VNS(both, NOTE_WRITE | NOTE_EXTEND, 0) VNS(all, NOTE_WRITE | NOTE_EXTEND | NOTE_ATTRIB, 0) VNS(one, NOTE_EXTEND, M_ONESHOT) VNS(disp, NOTE_WRITE | NOTE_EXTEND, M_DISPATCH)
VNN(link, NOTE_LINK, 0) VNN(dellink, NOTE_DELETE | NOTE_LINK, 0) VNN(rendel, NOTE_RENAME | NOTE_DELETE, 0) VNN(all, NOTE_ATTRIB | NOTE_LINK | NOTE_RENAME | NOTE_DELETE, 0)
static World *mk_vnx(Obj *(*mk)(World *), uint32_t req, int mode)
{
    World *w = new World;
    Obj *v = mk(w);
    Slot *s = w->slot("V", 0, EVFILT_VNODE, v, 0); s->areq = req;
    w->on_begin = [=] { w->change(s, EV_ADD | (mode & M_ONESHOT ? EV_ONESHOT : 0) | (mode & M_DISPATCH ? EV_DISPATCH : 0), req, 0, 0x4242); };
    op_collect(w, 0, 1);
    if (mode & M_DISPATCH) op_enable(w, s);
    obj_ops(w);
    return w;
}
// every change is collected before the next one happens
static World *mk_vnc(uint32_t req, int mode, int ops)
{
    World *w = new World;
    Obj *v = mk_vfile(w, "vf"); obj_notify_flags(v, ops);
    Slot *s = w->slot("V", 0, EVFILT_VNODE, v, 0); s->areq = req;
    w->on_begin = [=] { w->change(s, EV_ADD | (mode & M_ONESHOT ? EV_ONESHOT : 0) | (mode & M_DISPATCH ? EV_DISPATCH : 0), req, 0, 0x4242); };
    if (mode & M_DIS) { op_disable(w, s); op_enable(w, s); }
    obj_ops(w);
    for (auto &o : w->ops) {
        auto r = o.run;
        o.run = [=] { r(); for (int i = 0; i < 8; i++) if (w->collect(0, 1) == 0) break; if ((mode & M_DISPATCH) && s->present && !s->enabled && !nameless(s)) w->change(s, EV_ENABLE, 0, 0, 0x4242); };
    }
    return w;
}
#define VNC(nm, req, mode, ops) static Reg r_vnc_##nm("vnc_" #nm, [] { return mk_vnc(req, mode, ops); });
VNC(link, NOTE_LINK, 0, 8 | 16 | 32 | 64 | 128) VNC(dellink, NOTE_LINK | NOTE_DELETE, 0, 1 | 16 | 32 | 128) VNC(extend, NOTE_EXTEND, 0, 1 | 2 | 4 | 8 | 64) VNC(write, NOTE_WRITE, 0, 1 | 2 | 4 | 8 | 64)
VNC(all, NOTE_WRITE | NOTE_EXTEND | NOTE_ATTRIB | NOTE_LINK | NOTE_RENAME | NOTE_DELETE, 0, 0xff)
VNC(disp, NOTE_WRITE | NOTE_EXTEND | NOTE_ATTRIB | NOTE_LINK | NOTE_RENAME | NOTE_DELETE, M_DISPATCH, 0xff)
VNC(dis, NOTE_WRITE | NOTE_EXTEND | NOTE_ATTRIB | NOTE_LINK | NOTE_RENAME | NOTE_DELETE, M_DIS, 2 | 8 | 16 | 64 | 128)
// directories whose entries have long names, a file with a path of more than 3000 characters, one with an unusual name
static Obj *vdir(World *w) { return mk_vdir(w, "vd"); }
static Obj *vdeep(World *w) { Obj *o = mk_vdeep(w, std::string(250, 'n').c_str(), 12); obj_notify_flags(o, 0xff); return o; }
static Obj *vname(World *w) { Obj *o = mk_vdeep(w, "a b%s\\040 (deleted)\n\tx", 1); obj_notify_flags(o, 0xff); return o; }
static const uint32_t V_ALL = NOTE_WRITE | NOTE_EXTEND | NOTE_ATTRIB | NOTE_LINK | NOTE_RENAME | NOTE_DELETE;
static Reg r_vnd0("vnd_all", [] { return mk_vnx(vdir, V_ALL, 0); }), r_vnd1("vnd_rendel", [] { return mk_vnx(vdir, NOTE_RENAME | NOTE_DELETE, 0); }), r_vnd2("vnd_attrib", [] { return mk_vnx(vdir, NOTE_ATTRIB, M_DISPATCH); }),
    r_vnp0("vnp_deep", [] { return mk_vnx(vdeep, V_ALL, 0); }), r_vnp1("vnp_name", [] { return mk_vnx(vname, V_ALL, 0); }), r_vnp2("vnp_disp", [] { return mk_vnx(vdeep, NOTE_WRITE | NOTE_ATTRIB | NOTE_RENAME, M_DISPATCH); });
static World *mk_vn2()
{
    World *w = new World;
    for (int i = 0; i < 2; i++) {
        Obj *v = mk_vfile(w, fmt("vf%d", i).c_str()); obj_notify_flags(v, 1 | 8);
        Slot *s = w->slot(fmt("V%d", i).c_str(), 0, EVFILT_VNODE, v, 0); s->areq = i ? NOTE_ATTRIB : NOTE_WRITE | NOTE_ATTRIB;
        op_add(w, s, i ? M_ONESHOT : M_LEVEL); op_disable(w, s); op_delete(w, s);
    }
    op_collect(w, 0, 1); op_collect(w, 0, 2);
    obj_ops(w);
    return w;
}
static Reg r_vn2("vn_two", mk_vn2);

// ================================================================ C14: timeouts
static World *mk_timeout()
{
    World *w = new World;
    Slot *t = w->slot("T", 0, EVFILT_TIMER, nullptr, 0, 5), *u = w->slot("U", 0, EVFILT_USER, nullptr, 0, 6);
    Obj *f = mk_file(w, "file");
    Slot *fr = w->slot("F", 0, EVFILT_READ, f, 0);
    auto reg = [&](const char *nm, uint32_t ff, int64_t d, unsigned fl) { op_change(w, t, nm, EV_ADD | fl, ff, d, [=] { return !t->present; }); };
    reg("4ms", 0, 4, EV_ONESHOT); reg("1us", NOTE_USECONDS, 1, EV_ONESHOT); reg("3s", NOTE_SECONDS, 3, 0); reg("2500us", NOTE_USECONDS, 2500, 0);
    op_delete(w, t);
    op_add(w, u, M_CLEAR); op_trigger(w, u, NOTE_FFNOP, 0, true); op_disable(w, u);
    op_add(w, fr, M_LEVEL);
    op_delete(w, fr);
    struct T { const char *nm; int64_t s, ns; };
    static const T ts[] = { { "0", 0, 0 }, { "1ns", 0, 1 }, { "999ns", 0, 999 }, { "1us", 0, 1000 }, { "500us", 0, 500000 }, { "999999ns", 0, 999999 }, { "1ms", 0, 1000000 }, { "1000001ns", 0, 1000001 }, { "4ms", 0, 4000000 },
        { "999ms", 0, 999000000 }, { "999999999ns", 0, 999999999 }, { "1s", 1, 0 }, { "1.5s", 1, 500000000 }, { "2147483s", 2147483, 0 }, { "2147483.648s", 2147483, 648000000 }, { "2147484s", 2147484, 0 }, { "4294967.3s", 4294967, 300000000 }, { "50d", 4320000, 0 }, { "200y", 6307200000ll, 1 }, { "null", -1, 0 } };
    auto first = [=](int64_t *when) {
        // the instant at which something is first pending, -1 = never
        *when = -1;
        for (auto &s : w->slots) {
            if (!s->present || !s->enabled) continue;
            int64_t x = -1;
            if (s->filt == EVFILT_TIMER) { if (s->armed) x = std::max(s->next, rt::vnow); }
            else { Tri r = s->ready(); if (r == MUST) x = rt::vnow; else if (r == MAY) return false; }
            if (x >= 0 && (*when < 0 || x < *when)) *when = x;
        }
        return true;
    };
    for (auto &x : ts) for (int intr = 0; intr < 2; intr++) {
        w->op(fmt("%s.%s", intr ? "waitintr" : "wait", x.nm), [] { return rt::vnow < 5000000000000000000ll; }, [=] {
            int64_t when, t0 = rt::vnow;
            if (!first(&when)) return;
            int64_t lim = x.s < 0 ? -1 : t0 + x.s * 1000000000ll + x.ns;
            int64_t iat = intr ? t0 + 700 : -1;          // a signal arrives 700 ns into the wait
            struct timespec tv = { x.s, x.ns };
            struct kevent out[2];
            rt::intr_at = iat;
            errno = 0;
            int r = w->call(0, nullptr, 0, out, 2, x.s < 0 ? nullptr : &tv);
            int e = errno;
            rt::intr_at = -1;
            bool ev = when >= 0 && (lim < 0 || when <= lim);
            int64_t stop = ev ? when : lim;
            if (iat >= 0 && (stop < 0 || iat < stop)) {
                rt::blocked_forever = false;
                w->check_rt("wait");
                if (r != -1 || e != EINTR) fail("interrupted wait returned %d, errno %d", r, e);
                if (rt::vnow != iat) fail("interrupted wait returned %ld ns after the signal", (long)(rt::vnow - iat));
                return;
            }
            if (stop < 0) {
                if (!rt::blocked_forever) fail("nothing can happen and there is no timeout, but the call returned %d (errno %d)", r, e);
                rt::blocked_forever = false;
                w->check_rt("wait");
                return;
            }
            w->check_rt("wait");
            if (r < 0) fail("wait failed with errno %d", e);
            if (rt::vnow != stop) fail("the call returned %ld ns %s than it should (%s after %ld ns)", (long)std::labs(rt::vnow - stop), rt::vnow < stop ? "earlier" : "later", ev ? "an event is due" : "timeout", (long)(stop - t0));
            if (ev && r == 0) fail("an event is pending but the call returned 0");
            w->process_events(0, out, r, 2, "wait");
        });
    }
    w->op("wait.invalid", always, [=] {
        int64_t t0 = rt::vnow;
        static const struct timespec bad[] = { { -1, 0 }, { -1, 999999999 }, { 0, -1 }, { -1, -1 }, { 0, 1000000000 }, { 1, 1999999999 }, { INT64_MIN, 0 }, { 0, INT64_MIN }, { 0, INT64_MAX }, { 5, -1000000 } };
        for (auto &tv : bad) {
            struct kevent out[2];
            errno = 0;
            int r = rt::kq_event(w->kqs[0], nullptr, 0, out, 2, &tv), e = errno;
            bool bf = rt::blocked_forever;
            rt::blocked_forever = false;
            w->check_rt("wait with an invalid timeout");
            if (bf) fail("a call with the timeout { %ld, %ld } waits for ever", (long)tv.tv_sec, (long)tv.tv_nsec);
            if (r != -1 || e != EINVAL || rt::vnow != t0) fail("a call with the timeout { %ld, %ld } returned %d (errno %d) after %ld ns", (long)tv.tv_sec, (long)tv.tv_nsec, r, e, (long)(rt::vnow - t0));
        }
    });
    w->op("wait.noroom", always, [=] {
        int64_t t0 = rt::vnow;
        for (int i = 0; i < 3; i++) {
            struct timespec tv = { 5, 0 };
            int r = rt::kq_event(w->kqs[0], nullptr, 0, nullptr, 0, i == 0 ? nullptr : i == 1 ? &tv : nullptr);
            w->check_rt("wait without room");
            if (r != 0 || rt::vnow != t0) fail("a call without room for events returned %d after %ld ns", r, (long)(rt::vnow - t0));
        }
    });
    obj_ops(w);
    return w;
}
static Reg r_to("timeouts", mk_timeout);
// things that happen during the wait: wake-ups that turn out to mean nothing, then data, a signal, or the end of the timeout
static World *mk_timeout2()
{
    World *w = new World;
    Obj *v = mk_vfile(w, "vf"), *p = mk_pipe(w, "pipe"); obj_notify_flags(v, 0); obj_notify_flags(p, 0);
    Slot *vs = w->slot("V", 0, EVFILT_VNODE, v, 0), *r = w->slot("R", 0, EVFILT_READ, p, 0);
    w->on_begin = [=] { w->change(vs, EV_ADD, NOTE_RENAME, 0, 0x41); w->change(r, EV_ADD, 0, 0, 0x42); };
    struct T { const char *nm; int64_t s, ns; };
    static const T ts[] = { { "2ns", 0, 2 }, { "1ms", 0, 1000000 }, { "999999999ns", 0, 999999999 }, { "1s", 1, 0 }, { "1.5s", 1, 500000000 }, { "2s", 2, 0 }, { "3.000000001s", 3, 1 }, { "2147483.648s", 2147483, 648000000 }, { "4294967.3s", 4294967, 300000000 }, { "200y", 6307200000ll, 1 }, { "null", -1, 0 } };
    static const std::vector<std::vector<int64_t>> sp = { { 1 }, { 300000 }, { 999999999 }, { 1000000000 }, { 1700000000 }, { 700000000, 1400000000 }, { 1200000000, 1900000000 }, { 999999998, 999999999, 1000000001, 2500000000ll }, { 5000000000ll, 2147483000000000000ll / 1000 }, { 100000000000000ll } };
    for (auto &x : ts) for (size_t k = 0; k < sp.size(); k++) for (int what = 0; what < 3; what++) for (int64_t at : { 900000ll, 1950000000ll, 200000000000000ll }) {
        if (what == 0 && at != 900000) continue;
        w->op(fmt("%s.spurious%zu%s", x.nm, k, what == 0 ? "" : fmt(".%s%ldus", what == 1 ? "data" : "signal", (long)(at / 1000)).c_str()), [] { return rt::vnow < 2000000000000000000ll; }, [=] {
            int64_t t0 = rt::vnow, lim = x.s < 0 ? -1 : t0 + x.s * 1000000000ll + x.ns;
            struct timespec tv = { x.s, x.ns };
            struct kevent out[2];
            rt::env_at.clear();
            for (int64_t q : sp[k]) rt::env_at.push_back({ t0 + q, [=] { int c = fcntl(v->fd(0), F_DUPFD_CLOEXEC, 3); (void)c; close(c); int g = open(fmt("/proc/self/fd/%d", v->fd(0)).c_str(), O_RDONLY | O_CLOEXEC); if (g < 0) abort(); close(g); } });
            if (what == 1) rt::env_at.push_back({ t0 + at, [=] { if (::write(p->fd(1), "x", 1) != 1) abort(); } });
            std::stable_sort(rt::env_at.begin(), rt::env_at.end(), [](const rt::EnvEvent &a, const rt::EnvEvent &b) { return a.t < b.t; });
            rt::intr_at = what == 2 ? t0 + at : -1;
            errno = 0;
            int n = w->call(0, nullptr, 0, out, 2, x.s < 0 ? nullptr : &tv), e = errno;
            rt::intr_at = -1; rt::env_at.clear();
            bool bf = rt::blocked_forever;
            rt::blocked_forever = false;
            w->check_rt("wait");
            int64_t stop = what && (lim < 0 || t0 + at < lim) ? t0 + at : lim;
            if (stop < 0) { if (!bf) fail("nothing can happen and there is no timeout, but the call returned %d (errno %d)", n, e); }
            else {
                if (bf) fail("the call would never return");
                if (rt::vnow != stop) fail("the call returned %ld ns %s than it should (started %ld ns before)", (long)std::labs(rt::vnow - stop), rt::vnow < stop ? "earlier" : "later", (long)(stop - t0));
                if (stop == lim) { if (n != 0) fail("timeout, but the call returned %d (errno %d)", n, e); }
                else if (what == 2) { if (n != -1 || e != EINTR) fail("interrupted wait returned %d, errno %d", n, e); }
                else { if (n != 1 || out[0].filter != EVFILT_READ || out[0].data != 1) fail("one byte arrived, but the call returned %d (errno %d)%s", n, e, n > 0 ? kev_str(out[0]).c_str() : ""); }
            }
            char c;
            while (::read(p->fd(0), &c, 1) == 1);
        });
    }
    op_collect(w, 0, 1);
    return w;
}
static Reg r_to2("timeouts2", mk_timeout2);
// data arrives during the wait and somebody else takes it before (or just after) the call fetches it, once or several times
static World *mk_timeout3()
{
    World *w = new World;
    Obj *p = mk_pipe(w, "pipe"); obj_notify_flags(p, 0);
    Slot *r = w->slot("R", 0, EVFILT_READ, p, 0);
    w->on_begin = [=] { w->change(r, EV_ADD, 0, 0, 0x42); };
    struct T { const char *nm; int64_t s, ns; };
    static const T ts[] = { { "2ns", 0, 2 }, { "1ms", 0, 1000000 }, { "3.5ms", 0, 3500000 }, { "999999999ns", 0, 999999999 }, { "1s", 1, 0 }, { "3.000000001s", 3, 1 }, { "2147483.648s", 2147483, 648000000 }, { "200y", 6307200000ll, 1 }, { "null", -1, 0 } };
    static const std::vector<std::vector<int64_t>> sp = { { 1 }, { 900000 }, { 2700000 }, { 3499999 }, { 999999998 }, { 999999999, 1700000000 }, { 500000000, 2999999999ll, 3000000000ll }, { 2147483000000000ll, 2147483647000000ll } };
    for (auto &x : ts) for (size_t k = 0; k < sp.size(); k++) for (int j = 0; j < 4; j++) for (int more = 0; more < 2; more++)
        w->op(fmt("%s.gone%zu@%d%s", x.nm, k, j, more ? ".data" : ""), [] { return rt::vnow < 2000000000000000000ll; }, [=] {
            int64_t t0 = rt::vnow, lim = x.s < 0 ? -1 : t0 + x.s * 1000000000ll + x.ns, last = 0;
            struct timespec tv = { x.s, x.ns };
            struct kevent out[2];
            int took = 0;
            rt::env_at.clear();
            for (int64_t q : sp[k]) {
                last = t0 + q;
                rt::env_at.push_back({ last, [=, &took] {
                    if (::write(p->fd(1), "x", 1) != 1) abort();
                    rt::mid_no = 0; rt::mid_at = j;
                    rt::mid_f = [=, &took] { char c; while (::read(p->fd(0), &c, 1) == 1) took++; };
                } });
            }
            const int64_t at = last + 250000;
            if (more) rt::env_at.push_back({ at, [=] { rt::mid_at = -1; if (::write(p->fd(1), "y", 1) != 1) abort(); } });
            errno = 0;
            int n = w->call(0, nullptr, 0, out, 2, x.s < 0 ? nullptr : &tv), e = errno;
            rt::env_at.clear(); rt::mid_at = -1;
            bool bf = rt::blocked_forever;
            rt::blocked_forever = false;
            w->check_rt("wait");
            int64_t el = rt::vnow - t0;
            if (n < 0 && !bf) fail("the wait failed with errno %d", e);
            if (n > 0) {
                // the moments at which something arrived
                bool ok = more && rt::vnow == at;
                for (int64_t q : sp[k]) ok |= el == q;
                if (!ok || (lim >= 0 && rt::vnow > lim)) fail("an event was returned after %ld ns, when nothing had arrived (timeout %s)", (long)el, x.nm);
                if (n != 1 || out[0].filter != EVFILT_READ || (out[0].data != 1 && !(out[0].data == 0 && took))) fail("unexpected result %d: %s", n, kev_str(out[0]).c_str());
            } else if (lim < 0) { if (more || !bf) fail("%s", bf ? "the call would never return although there is data" : "the call without a timeout returned nothing"); }
            else if (bf) fail("the call with a timeout would never return");
            else if (rt::vnow != lim) fail("nothing was returned, %ld ns %s the end of the timeout", (long)std::labs(rt::vnow - lim), rt::vnow < lim ? "before" : "after");
            else if (more && at < lim) fail("nothing was returned although there is data");
            char c;
            while (::read(p->fd(0), &c, 1) == 1);
        });
    op_collect(w, 0, 1);
    return w;
}
static Reg r_to3("timeouts3", mk_timeout3);

// ================================================================ descriptors whose numbers agree in their low bits
static World *mk_far(int which)
{
    World *w = new World;
    w->nofile = 17000;
    static const int off[] = { 0, 256, 1024, 16384 };
    for (int i = 0; i < (which ? 3 : 4); i++) {
        Obj *o = which ? mk_sock(w, fmt("sock%d", off[i]).c_str(), SOCK_STREAM) : mk_pipe(w, fmt("pipe%d", off[i]).c_str());
        o->at = 300 + off[i];
        obj_notify_flags(o, which ? 1 | 2 : 1);
        if (!which) { Slot *s = w->slot(fmt("R%d", off[i]).c_str(), 0, EVFILT_READ, o, 0); op_add(w, s, i & 1 ? M_CLEAR : M_LEVEL); op_delete(w, s); op_disable(w, s); op_enable(w, s); }
        else {
            Slot *s = w->slot(fmt("R%d", off[i]).c_str(), 0, EVFILT_READ, o, 0); op_add(w, s, M_LEVEL); op_delete(w, s);
            s = w->slot(fmt("W%d", off[i]).c_str(), 0, EVFILT_WRITE, o, 0); op_add(w, s, i ? M_DISPATCH : M_LEVEL); op_delete(w, s);
        }
    }
    op_collect(w, 0, 8);
    obj_ops(w);
    return w;
}
static Reg r_far_r("far_r", [] { return mk_far(0); }), r_far_rw("far_rw", [] { return mk_far(1); });

// ================================================================ C22: two kqueues
enum Kind2 { I_PIPE, I_SOCKW, I_SOCKR, I_FILE, I_TIMER, I_USER, I_PROC, I_VNODE, I_RW };
static World *mk_iso(Kind2 k)
{
    World *w = new World;
    w->nkq = 2;
    Obj *o = nullptr; short f = 0; uintptr_t uid = 5; int side = 0;
    switch (k) {
    case I_PIPE: o = mk_pipe(w, "pipe"); obj_notify_flags(o, 1 | 2 | 4); f = EVFILT_READ; break;
    case I_SOCKR: o = mk_sock(w, "sock", SOCK_STREAM); obj_notify_flags(o, 1 | 2 | 8); f = EVFILT_READ; break;
    case I_SOCKW: o = mk_sock(w, "sock", SOCK_STREAM); obj_notify_flags(o, 8 | 16 | 32); f = EVFILT_WRITE; break;
    case I_FILE: o = mk_file(w, "file"); f = EVFILT_READ; break;
    case I_TIMER: f = EVFILT_TIMER; break;
    case I_USER: f = EVFILT_USER; break;
    case I_PROC: o = mk_child(w, "child"); obj_notify_flags(o, 2); f = EVFILT_PROC; break;
    case I_VNODE: o = mk_vfile(w, "vf"); obj_notify_flags(o, 1 | 8); f = EVFILT_VNODE; break;
    case I_RW: o = mk_sock(w, "sock", SOCK_STREAM); obj_notify_flags(o, 1 | 2 | 8); break;
    }
    for (int i = 0; i < 2; i++) {
        auto open = [=] { return w->kqs[i] >= 0; };
        size_t n0 = w->ops.size();
        Slot *s = w->slot(fmt("%c", 'A' + i).c_str(), i, k == I_RW ? (i ? EVFILT_WRITE : EVFILT_READ) : f, o, side, uid);
        s->per = i ? 4 : 10;
        if (f == EVFILT_VNODE) s->areq = i ? NOTE_ATTRIB : NOTE_WRITE | NOTE_ATTRIB;
        op_add(w, s, M_LEVEL);
        if (k != I_PROC) { op_add(w, s, M_ONESHOT); op_add(w, s, M_DISPATCH); }
        if (k == I_PIPE || k == I_USER || k == I_SOCKR) op_add(w, s, M_CLEAR);
        op_enable(w, s); op_disable(w, s); op_delete(w, s);
        if (k == I_USER) op_trigger(w, s, NOTE_FFNOP, 0, true);
        op_collect(w, i, 2);
        w->op(fmt("kq%d.close", i), [=] { return w->kqs[!i] >= 0; }, [=] { w->close_kq(i); });
        for (size_t j = n0; j < w->ops.size(); j++) { auto p = w->ops[j].pre; w->ops[j].pre = [=] { return open() && p(); }; }
        w->op(fmt("kq%d.reopen", i), [=] { return w->kqs[i] < 0; }, [=] { w->reopen_kq(i); });
    }
    if (k == I_TIMER) { op_adv(w, 4000000); op_adv(w, 10000000); }
    obj_ops(w);
    return w;
}
#define ISO(nm, k) static Reg r_iso_##nm("iso_" #nm, [] { return mk_iso(k); });
ISO(pipe, I_PIPE) ISO(sockr, I_SOCKR) ISO(sockw, I_SOCKW) ISO(file, I_FILE) ISO(timer, I_TIMER) ISO(user, I_USER) ISO(proc, I_PROC) ISO(vnode, I_VNODE) ISO(rw, I_RW)

// ================================================================ C24: control filter
static World *mk_ctl()
{
    World *w = new World;
    Obj *p = mk_pipe(w, "pipe"); obj_notify_flags(p, 1 | 2);
    Slot *u = w->slot("U", 0, EVFILT_USER, nullptr, 0, 5), *r = w->slot("R", 0, EVFILT_READ, p, 0);
    struct St { int safe = -1, fork = -1; bool made[3] = {}; };
    auto st = std::make_shared<St>();
    auto query = [=](uintptr_t id, unsigned flags, uint32_t ff, intptr_t data, struct kevent *out, int room) {
        struct kevent k; EV_SET(&k, id, EVFILT_LIBKQUEUE, flags, ff, data, nullptr);
        struct timespec z = { 0, 0 };
        errno = 0;
        int n = w->call(0, &k, 1, out, room, &z);
        int e = errno;
        w->check_rt("control change");
        errno = e;
        return n;
    };
    w->on_begin = [=] {
        *st = St();
        struct kevent o[2];
        query(9, EV_ADD | EV_RECEIPT, NOTE_THREAD_SAFE, 1, o, 1); query(9, EV_ADD | EV_RECEIPT, NOTE_FORK_CLEANUP, 1, o, 1);
        st->safe = st->fork = 1;
    };
    w->on_end = [=] { struct kevent o[2]; query(9, EV_ADD | EV_RECEIPT, NOTE_THREAD_SAFE, 1, o, 1); query(9, EV_ADD | EV_RECEIPT, NOTE_FORK_CLEANUP, 1, o, 1); query(9, EV_DELETE, 0, 0, o, 1); for (uintptr_t i : { 0, 1 }) query(i, EV_DELETE, 0, 0, o, 1); };
    for (uintptr_t id : { 0, 1 }) {
        for (int rc = 0; rc < 2; rc++) {
            unsigned fl = EV_ADD | (rc ? EV_RECEIPT : 0);
            w->op(fmt("version%lu%s", (unsigned long)id, rc ? "!" : ""), always, [=] {
                struct kevent o[2], q[2];
                if (query(id, fl, NOTE_VERSION, 0, o, 2) != 1) fail("version query returns no entry (errno %d)", errno);
                if (query(id, fl, NOTE_VERSION_STR, 0, q, 2) != 1) fail("version string query returns no entry");
                if (o[0].filter != EVFILT_LIBKQUEUE || o[0].ident != id || !(o[0].fflags & NOTE_VERSION)) fail("version query answered by %s", kev_str(o[0]).c_str());
                if ((o[0].flags & EV_ERROR) || (q[0].flags & EV_ERROR)) fail("version query answered by an error: %s", kev_str(o[0]).c_str());
                unsigned a, b, c;
                if (!q[0].udata || sscanf((const char *)q[0].udata, "%u.%u.%u", &a, &b, &c) != 3) fail("version string is not a version");
                uint32_t v = o[0].data;
                if ((v >> 24) != a || ((v >> 16) & 255) != b || ((v >> 8) & 255) != c) fail("version number %#x does not match version string %s", v, (const char *)q[0].udata);
            });
        }
        w->op(fmt("unknown%lu", (unsigned long)id), always, [=] {
            struct kevent o[2];
            for (unsigned ff : { 0u, 8u, 0x40000u, 0x80000000u, 0xffffffffu, 0x100u | NOTE_VERSION, 0x10u | NOTE_VERSION_STR, 0x100u | NOTE_THREAD_SAFE, 0x80000000u | NOTE_THREAD_SAFE, 0x10u | NOTE_FORK_CLEANUP, 0x10000u | NOTE_FORK_CLEANUP })
                for (int val = 0; val < 2; val++) {
                    int n = query(id, EV_ADD | (val ? EV_RECEIPT : 0), ff, val, o, 1);
                    if (n != 1 || !(o[0].flags & EV_ERROR) || o[0].data == 0) fail("unknown option %#x accepted (returned %d)", ff, n);
                    n = query(id, EV_ADD | (val ? EV_RECEIPT : 0), ff, val, o, 0);
                    if (n != -1 || errno == 0) fail("unknown option %#x accepted without event list (returned %d, errno %d)", ff, n, errno);
                }
        });
        w->op(fmt("versionnoroom%lu", (unsigned long)id), always, [=] { struct kevent o[2]; int n = query(id, EV_ADD, NOTE_VERSION, 0, o, 0); if (n != -1 || errno == 0) fail("version query without room returned %d (errno %d)", n, errno); });
    }
    for (int opt = 0; opt < 2; opt++) for (int val = 0; val < 2; val++) for (int rc = 0; rc < 2; rc++)
        w->op(fmt("%s=%d%s", opt ? "forkcleanup" : "threadsafe", val, rc ? "!" : ""), always, [=] {
            struct kevent o[2];
            int *cur = opt ? &st->fork : &st->safe;
            int n = query(opt, EV_ADD | (rc ? EV_RECEIPT : 0), opt ? NOTE_FORK_CLEANUP : NOTE_THREAD_SAFE, val, o, rc);
            if (n != rc) fail("option change returned %d (errno %d), expected %d", n, errno, rc);
            if (rc) {
                if (o[0].flags & EV_ERROR) { if (o[0].data != 0) fail("option change failed with %ld", (long)o[0].data); }
                if (o[0].filter != EVFILT_LIBKQUEUE || o[0].data != *cur) fail("previous option value is %d, entry says %s", *cur, kev_str(o[0]).c_str());
            }
            *cur = val;
        });
    w->extra_hash = [=](Hash &h) { h.add(st->safe); h.add(st->fork); };
    op_add(w, u, M_CLEAR); op_trigger(w, u, NOTE_FFNOP, 0, true); op_delete(w, u);
    op_add(w, r, M_LEVEL); op_delete(w, r);
    op_collect(w, 0, 3);
    obj_ops(w);
    return w;
}
static Reg r_ctl("control", mk_ctl);

// debugging output: on/off, the function it goes to, the prefix
static std::vector<std::string> dlines[2];
template <int N> static void dsink(const char *f, ...)
{
    char b[4096];
    va_list ap; va_start(ap, f);
    int save = rt::inlib; rt::inlib = 0;
    vsnprintf(b, sizeof b, f, ap);
    dlines[N].push_back(b);
    rt::inlib = save;
    va_end(ap);
}
static World *mk_ctl_debug()
{
    World *w = new World;
    Slot *u = w->slot("U", 0, EVFILT_USER, nullptr, 0, 5);
    struct St { int on, fn, pfx; };
    auto st = std::make_shared<St>();
    static const char *pfx[] = { "KQ", "first", "a much longer prefix than the other one" };
    auto set = [=](uint32_t what, intptr_t v, int rc, struct kevent *o) {
        struct kevent k; EV_SET(&k, 3, EVFILT_LIBKQUEUE, EV_ADD | (rc ? EV_RECEIPT : 0), what, v, nullptr);
        struct timespec z = { 0, 0 };
        errno = 0;
        int n = w->call(0, &k, 1, o, rc, &z);
        if (n != rc) fail("debug option change returned %d (errno %d)", n, errno);
    };
    auto del = [=] { struct kevent k; EV_SET(&k, 3, EVFILT_LIBKQUEUE, EV_DELETE, 0, 0, nullptr); rt::kq_event(w->kqs[0], &k, 1, nullptr, 0, nullptr); };
    w->on_begin = [=] {
        struct kevent o[1];
        rt::Ledger a = rt::ledger();
        set(NOTE_DEBUG, 0, 0, o); set(NOTE_DEBUG_FUNC, (intptr_t)dsink<0>, 0, o); set(NOTE_DEBUG_PREFIX, (intptr_t)pfx[0], 0, o);
        del();
        rt::Ledger b = rt::ledger();
        w->base.blocks += b.blocks - a.blocks; w->empty.blocks += b.blocks - a.blocks;      // the copy of the prefix
        *st = { 0, 0, 0 };
    };
    w->on_end = [=] { struct kevent o[1]; set(NOTE_DEBUG, 0, 0, o); set(NOTE_DEBUG_PREFIX, (intptr_t)pfx[0], 0, o); del(); };
    for (int v = 0; v < 2; v++) for (int rc = 0; rc < 2; rc++)
        w->op(fmt("debug=%d%s", v, rc ? "!" : ""), always, [=] {
            struct kevent o[1];
            set(NOTE_DEBUG, v, rc, o);
            if (rc && o[0].data != st->on) fail("debugging was %d, the change reports a previous value of %ld", st->on, (long)o[0].data);
            st->on = v;
        });
    for (int v = 0; v < 2; v++) w->op(fmt("func%d", v), always, [=] { struct kevent o[1]; set(NOTE_DEBUG_FUNC, v ? (intptr_t)dsink<1> : (intptr_t)dsink<0>, 0, o); st->fn = v; });
    for (int v = 0; v < 3; v++) w->op(fmt("prefix%d", v), always, [=] { struct kevent o[1]; char b[64]; strcpy(b, pfx[v]); set(NOTE_DEBUG_PREFIX, (intptr_t)b, 0, o); memset(b, '#', sizeof b - 1); st->pfx = v; });
    w->op("call", always, [=] {
        dlines[0].clear(); dlines[1].clear();
        w->collect(0, 2);
        size_t want = dlines[st->fn].size();
        if (!dlines[!st->fn].empty()) fail("debugging output went to a function that is no longer installed");
        if (st->on && !want) fail("debugging is on but produced no output");
        if (!st->on && want) fail("debugging is off but produced: %s", dlines[st->fn][0].c_str());
        for (auto &l : dlines[st->fn]) if (l.compare(0, strlen(pfx[st->pfx]), pfx[st->pfx]) != 0) fail("debugging output does not start with the prefix %s: %s", pfx[st->pfx], l.c_str());
    });
    w->op("ctl.delete", always, [=] { del(); });
    w->extra_hash = [=](Hash &h) { h.add(st->on); h.add(st->fn); h.add(st->pfx); };
    op_add(w, u, M_CLEAR); op_trigger(w, u, NOTE_FFNOP, 0, true); op_delete(w, u);
    return w;
}
static Reg r_ctld("ctl_debug", mk_ctl_debug);

// ================================================================ known findings: the same worlds without the allowance
static World *strict(World *w) { w->strict = true; return w; }
static World *mk_kf_file(int mode)
{
    World *w = new World;
    Obj *f = mk_file(w, "file");
    Slot *r = w->slot("R", 0, EVFILT_READ, f, 0);
    op_add(w, r, mode); op_collect(w, 0, 2); op_enable(w, r); op_disable(w, r); op_delete(w, r);
    obj_ops(w);
    return strict(w);
}
static Reg r_kf1("kf_file_eof", [] { return mk_kf_file(M_LEVEL); }), r_kf2("kf_file_clear", [] { return mk_kf_file(M_CLEAR); });
static World *mk_kf_shared()
{
    World *w = new World;
    Obj *o = mk_sock(w, "sock", SOCK_STREAM); obj_notify_flags(o, 1 | 2);
    Slot *r = w->slot("R", 0, EVFILT_READ, o, 0), *x = w->slot("W", 0, EVFILT_WRITE, o, 0);
    op_add(w, r, M_CLEAR); op_add(w, x, M_LEVEL); op_collect(w, 0, 2);
    obj_ops(w);
    return strict(w);
}
static Reg r_kf3("kf_shared_clear", mk_kf_shared);
