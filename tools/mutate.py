#!/usr/bin/env python3
"""Developer tool (not part of any check): mutate the library's sources in a scratch directory, run a shallow
version of every exploration against each mutant and list the mutants nothing notices.
   mutate.py WORKDIR [-j N] [--only FILE:LINE,...] [--files a.c,b.c] [--deep]"""
import argparse, hashlib, json, os, re, shlex, shutil, subprocess, sys, threading, queue, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MC = HERE + "/mc"
REPO = "/repo"
FILES = ["src/common/" + x for x in "kevent.c knote.c filter.c kqueue.c map.c libkqueue.c alloc.h private.h tree.h".split() if x.endswith(".c")] + \
        ["src/linux/" + x for x in "platform.c read.c write.c user.c timer.c signal.c proc_pidfd.c proc.c vnode.c".split()]


REN = ["--redefine-sym=%s=kqf_%s" % (x, x) for x in ("memcpy", "memmove", "memset")]


def stage(deep):
    d = 1 if deep else 0
    objs = "pipe_r fifo_r sock_r dgram_r listen_r file_r pipe_w sock_w file_w timer user sig rtsig proc seq_r dgram0_r tcp_r ev_r bigfile_r seq_w tcp_w ev_w fifo_w dgram_w udp_r udp_w bpf_r".split()
    S = lambda w, m, n, p=2: ("seq", w, m, n, p)
    J = [S("life_" + o, "closure", 4 + 3 * d) for o in objs] + [S("lifer_" + o, "closure", 3 + 4 * d) for o in objs]
    J += [S("multi%d" % i, "closure", 4 + 2 * d) for i in range(6)] + [S(w, "closure", 3 + 2 * d) for w in "rw_sock rw_dgram rw_file rw_clear reg_filters iso_rw iso_pipe iso_sockr iso_sockw iso_file iso_timer iso_user iso_proc".split()]
    J += [S(w, "closure", 4 + 3 * d) for w in "reg_idents reg_tidents timer_units timer_long timer_abs timer_extreme timers2 user_level user_clear user_oneshot user_dispatch sigs_level sigs_oneshot sigs_dispatch proc_status proc_two proc_kq2 badkq".split()] + [S("control", "closure", 2 + 3 * d)]
    J += [S("timeouts", "closure", 2 + d), S("timeouts2", "full", 1), S("clseq", "full", 1 + d), S("tree4", "full", 6 + 2 * d), S("backlog", "closure", 2), S("cllong", "full", 1), S("ctl_debug", "closure", 4), S("badreg", "closure", 2), S("sigs_edge", "closure", 4), S("dbg_multi0", "closure", 3), S("dbg_life_pipe_r", "closure", 3)] + ([S("cl3_0", "full", 1), S("cl3_2", "full", 1), S("treeperm5", "full", 10)] if deep else [])
    J += [S(w, "full", 4 + d, 16) for w in "vns_write vns_extend vns_both vns_all vns_one vnn_link vnn_dellink vnn_rendel vnn_all".split()]
    J += [S("vnc_" + w, "full", 4 + d, 16) for w in "link dellink extend write all disp dis".split()]
    J += [S("vn_" + w, "full", 2 + d, 16) for w in "write extend attrib link rename delete all wrdel attrlink extren one_all one_link one_write disp_all".split()] + [S("life_vnode", "closure", 2 + 2 * d, 16), S("vn_two", "closure", 2 + 2 * d, 16), S("iso_vnode", "closure", 2 + 2 * d, 16)]
    K = [("sched", f, 0, b, 2) for f, b in (("lin_user", d), ("lin_pipe", d), ("conc", d), ("race", 1 + d), ("life", 1), ("life2", 0), ("fault", 1), ("fork", 1), ("fork2", 1), ("fork3", 1), ("cancel", 2), ("exit", d))]
    return J, K


def gen(path, text):
    """yields (line number, description, new text)"""
    lines = text.split("\n")
    incomment = False
    ndbg = 0
    fn = ""
    for i, l in enumerate(lines):
        s = l.strip()
        if re.match(r"^[a-z_]+\(", l): fn = l
        if re.match(r"^[a-z_ ]*(dump|debug|attach|printf)[a-z_]*\(", fn) or "_dump(" in fn or "debug" in fn: continue
        if s.startswith("#if"): ndbg = ndbg + 1 if ndbg or "NDEBUG" in s or "WIN32" in s or "FIXME" in s or "HAVE_NOTE_TRUNC" in s else 0
        if s.startswith("#else") and ndbg == 1: ndbg = 0
        if s.startswith("#endif") and ndbg: ndbg -= 1
        if ndbg: continue
        if incomment:
            if "*/" in s: incomment = False
            continue
        if s.startswith("/*"):
            if "*/" not in s: incomment = True
            continue
        if not s or s.startswith(("#", "//", "*", "dbg_", "}", "{", "assert(", "case ", "default:")) or "dbg_" in s or s.endswith("\\"): continue
        if re.match(r"^(static|extern|const|struct|int|void|typedef|bool|uint|char|ssize_t|size_t|unsigned|long|return;|break;|continue;|goto)\b", l): continue

        def out(desc, new): return (i + 1, desc, "\n".join(lines[:i] + [new] + lines[i + 1:]))
        m = re.search(r"\b(if|while) \((.*)\)( \{| goto.*| return.*|)$", l)
        if m and l.count("(") == l.count(")"):
            yield out("negate", l[:m.start(2)] + "!(" + m.group(2) + ")" + l[m.end(2):])
        for a, b in ((" < ", " <= "), (" > ", " >= "), (" <= ", " < "), (" >= ", " > "), (" == ", " != "), (" != ", " == "), (" && ", " || "), (" || ", " && "), (" + ", " - "), (" - ", " + "), (" |= ", " = "), ("&= ~", "|= "), ("++", "--"), ("--", "++"), ("true", "false"), ("false", "true")):
            k = l.find(a)
            while k >= 0:
                if not (a == " < " and re.match(r"0\b", l[k + 3:])): yield out("%s->%s" % (a.strip(), b.strip()), l[:k] + b + l[k + len(a):])
                k = l.find(a, k + len(a))
        for m in re.finditer(r"(?<![\w.])(0|1|-1)(?![\w.])", l):
            v = m.group(1)
            yield out("const", l[:m.start()] + {"0": "1", "1": "0", "-1": "0"}[v] + l[m.end():])
        for m in re.finditer(r" \| (\w+)", l):
            yield out("dropflag " + m.group(1), l[:m.start()] + l[m.end():])
        for m in re.finditer(r"(\b[A-Z][A-Z_]+) \| ", l):
            yield out("dropflag " + m.group(1), l[:m.start()] + l[m.end():])
        if s.endswith(";") and not s.startswith(("return", "break", "continue", "goto", "for", "while", "else", "struct", "int ", "const ", "uint", "char ", "bool ", "static", "ssize_t", "size_t", "socklen_t", "unsigned", "off_t", "sigset_t", "enum", "void ", "pid_t", "long ", "siginfo", "intptr")) and l.count("(") == l.count(")"):
            yield out("delete", re.match(r"\s*", l).group(0) + ";")
        if s in ("break;", "continue;"): yield out("delete", ";")


def run(cmd, t=120, env=None, cwd=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, text=True, errors="replace", env=env, cwd=cwd)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return -99, ""


def main():
    a = argparse.ArgumentParser()
    a.add_argument("work"); a.add_argument("-j", type=int, default=4); a.add_argument("--only"); a.add_argument("--files"); a.add_argument("--deep", action="store_true")
    o = a.parse_args()
    W = os.path.abspath(o.work)
    os.makedirs(W, exist_ok=True)
    wraps = ["-Wl,--wrap=" + x for x in open(MC + "/wraps.txt").read().split()]
    variants = {"kqmc": (["-fsanitize=address,bounds", "-fno-sanitize-recover=bounds"], ["rt", "seq", "worlds", "worlds2", "main"]), "kqsc": (["-fsanitize=thread"], ["rt", "sched", "fine"] + sorted(x[:-3] for x in os.listdir(MC) if x.startswith("scn_") and x.endswith(".cc")))}
    comp = {}
    for t, (san, srcs) in variants.items():
        b = "%s/base.%s" % (W, t)
        if not os.path.exists(b + "/lib/libkqueue.a"):
            subprocess.check_call(["cmake", "-S", REPO, "-B", b + "/lib", "-G", "Ninja", "-DCMAKE_C_COMPILER=gcc", "-DCMAKE_BUILD_TYPE=Debug", "-DCMAKE_EXPORT_COMPILE_COMMANDS=ON", "-DCMAKE_C_FLAGS=-O1 -g0 -U_FORTIFY_SOURCE -Wno-error -w " + " ".join(san)], stdout=subprocess.DEVNULL)
            subprocess.check_call(["ninja", "-C", b + "/lib", "kqueue_static"], stdout=subprocess.DEVNULL)
        ps = [subprocess.Popen(["g++", "-std=c++17", "-O1", "-U_FORTIFY_SOURCE"] + (["-DKQ_FINE"] if t == "kqsc" else san if x != "rt" else []) + ["-I" + REPO + "/include", "-c", MC + "/" + x + ".cc", "-o", b + "/" + x + ".o"]) for x in srcs]
        assert not any(p.wait() for p in ps)
        comp[t] = {}
        for e in json.load(open(b + "/lib/compile_commands.json")):
            c = shlex.split(e["command"])
            if "objlib" not in e["command"]: continue
            comp[t][os.path.relpath(e["file"], REPO)] = (c, e["directory"], os.path.join(e["directory"], c[c.index("-o") + 1]))
            if t == "kqsc": subprocess.check_call(["objcopy"] + REN + [os.path.join(e["directory"], c[c.index("-o") + 1])])
    q = queue.Queue()
    only = set(o.only.split(",")) if o.only else None
    n = 0
    for f in FILES:
        if f not in comp["kqmc"] or (o.files and os.path.basename(f) not in o.files.split(",")): continue
        text = open(REPO + "/" + f).read()
        seen = set()
        for ln, d, new in gen(f, text):
            if only and "%s:%d" % (os.path.basename(f), ln) not in only: continue
            h = hashlib.sha1(new.encode()).hexdigest()
            if h in seen: continue
            seen.add(h)
            q.put((n, f, ln, d, new)); n += 1
    print(n, "mutants", flush=True)
    J, K = stage(o.deep)
    lock = threading.Lock()
    res = open(W + "/results.jsonl", "a")
    done = set()
    for l in open(W + "/results.jsonl"):
        r = json.loads(l); done.add((r["file"], r["line"], r["desc"], r["sha"]))

    def one(k, f, ln, d, new):
        sha = hashlib.sha1(new.encode()).hexdigest()[:10]
        if (f, ln, d, sha) in done and not o.deep: return
        w = "%s/m%d" % (W, k)
        shutil.rmtree(w, ignore_errors=True); os.makedirs(w + "/s")
        src = w + "/" + os.path.basename(f)
        open(src, "w").write(new)
        r = {"file": f, "line": ln, "desc": d, "sha": sha, "text": new.split("\n")[ln - 1].strip()}
        try:
            for t, (san, srcs) in variants.items():
                c, cwd, obj = comp[t][f]
                c = list(c)
                mo = w + "/" + t + ".o"
                c[c.index("-o") + 1] = mo
                c = [src if os.path.join(REPO, f) == os.path.normpath(os.path.join(cwd, x)) else x for x in c] + ["-I" + os.path.dirname(os.path.join(REPO, f))]
                rc, out = run(c, cwd=cwd)
                if rc: r["res"] = "nocompile"; return r
                if t == "kqsc": run(["objcopy"] + REN + [mo])
                if t == "kqmc":
                    rc, x1 = run(["objdump", "-d", "-r", "-s", "-j", ".text", "-j", ".rodata", "-j", ".data", mo]); rc, x2 = run(["objdump", "-d", "-r", "-s", "-j", ".text", "-j", ".rodata", "-j", ".data", obj])
                    if x1.split("\n", 3)[3:] == x2.split("\n", 3)[3:]: r["res"] = "same"; return r
                objs = [mo if x[2] == obj else x[2] for x in comp[t].values()]
                rc, out = run(["g++"] + (san if t == "kqmc" else ["-static"]) + ["-o", w + "/" + t] + ["%s/base.%s/%s.o" % (W, t, x) for x in srcs] + objs + wraps + ["-lpthread"])
                if rc: r["res"] = "nolink"; return r
            env = dict(os.environ, KQMC_SCRATCH=w + "/s")
            for tool, name, m, dep, p in J + K:
                cmd = [w + "/" + ("kqmc" if tool == "seq" else "kqsc"), tool, name, str(m), str(dep), "60", str(p)]
                rc, out = run(cmd, 100, env, w + "/s")
                try: jd = json.loads(out.strip().split("\n")[-1]); v = jd["violations"]
                except Exception: r["res"] = "killed"; r["by"] = name; r["msg"] = "no result rc=%d" % rc; return r
                if v: r["res"] = "killed"; r["by"] = name; r["msg"] = v[0]["msg"][:160]; return r
            r["res"] = "SURVIVED"
            return r
        finally:
            shutil.rmtree(w, ignore_errors=True)

    def worker():
        while True:
            try: k = q.get_nowait()
            except queue.Empty: return
            r = one(*k)
            if r:
                with lock:
                    res.write(json.dumps(r) + "\n"); res.flush()
                    if r["res"] == "SURVIVED": print("%(file)s:%(line)d %(desc)s | %(text)s" % r, flush=True)
    ts = [threading.Thread(target=worker) for _ in range(o.j)]
    [t.start() for t in ts]; [t.join() for t in ts]


main()
