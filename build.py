#!/usr/bin/env python3
"""Build the simulator (aasim) from /repo's working tree.

All of AardWARC's own sources (SRCS of /repo/Makefile) are compiled unmodified,
merged with ld -r, and every libc call for which the simulator has a
replacement sim_X is redirected to it with objcopy.  Prints the path of the
binary.  Results are cached by content hash under /verif/build."""
import hashlib, os, re, subprocess, sys, shutil, tempfile, time, glob, fcntl
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("AA_REPO", "/repo")
SIM = os.path.join(HERE, "sim")
BUILD = os.environ.get("AA_BUILD", os.path.join(HERE, "build"))
AACF = ["-O1", "-g", "-std=gnu99", "-include", os.path.join(HERE, "compat/freebsd.h"),
        "-DLIBBSD_NETBSD_VIS", "-isystem", "/usr/include/x86_64-linux-gnu/bsd", "-DLIBBSD_OVERLAY",
        '-DGITREV="simulate"', "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0", "-fno-stack-protector",
        "-fno-pic", "-fno-pie", "-fno-builtin-printf", "-fno-builtin-fprintf", "-fno-builtin-vprintf", "-w"]
SIMCF = ["-O2", "-g", "-std=c++17", "-fno-pic", "-fno-pie", "-fno-stack-protector", "-U_FORTIFY_SOURCE",
         "-D_FORTIFY_SOURCE=0", "-Wall", "-Wno-misleading-indentation", "-Wno-unused-result"]

def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        sys.stderr.write("FAILED: %s\n%s\n" % (" ".join(cmd), r.stdout))
        raise SystemExit(2)
    return r.stdout

def sources(repo):
    txt = open(os.path.join(repo, "Makefile")).read()
    src = []
    for m in re.finditer(r"^SRCS\s*[+?:]?=\s*(.*)$", txt, re.M):
        src += m.group(1).split()
    return [s for s in src if s.endswith(".c")]

def digest(files, extra):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(os.path.basename(f).encode() + b"\0" + open(f, "rb").read() + b"\0")
    return h.hexdigest()[:20]

def build():
    srcs = [os.path.join(REPO, s) for s in sources(REPO)]
    rfiles = srcs + glob.glob(REPO + "/*.h")
    sfiles = glob.glob(SIM + "/*.cpp") + glob.glob(SIM + "/*.hpp")
    compat = [os.path.join(HERE, "compat/freebsd.h")]
    shash = digest(sfiles, " ".join(SIMCF))
    thash = digest(rfiles + compat, " ".join(AACF) + shash)
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, "aasim-" + thash)
    if os.path.exists(out):
        os.utime(out)
        return out, thash
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(out):
            return out, thash
        # keep the cache small
        old = sorted(glob.glob(BUILD + "/aasim-*"), key=os.path.getmtime)
        for f in old[:-12]:
            if time.time() - os.path.getmtime(f) > 3600 and not f.endswith(".tmp"):
                os.unlink(f)
        tmp = tempfile.mkdtemp(prefix="b-", dir=BUILD)
        try:
            jobs = []
            sobjs = []
            sdir = os.path.join(BUILD, "simobj-" + shash)
            need_sim = not os.path.isdir(sdir)
            sd = tmp if need_sim else sdir
            for f in sorted(glob.glob(SIM + "/*.cpp")):
                o = os.path.join(sd, os.path.basename(f)[:-4] + ".o")
                sobjs.append(o)
                if need_sim:
                    jobs.append(["g++"] + SIMCF + ["-c", f, "-o", o])
            aobjs = []
            for f in srcs:
                o = os.path.join(tmp, "aa_" + os.path.basename(f)[:-2] + ".o")
                aobjs.append(o)
                jobs.append(["gcc"] + AACF + ["-I", REPO, "-c", f, "-o", o])
            with ThreadPoolExecutor(8) as ex:
                list(ex.map(run, jobs))
            if need_sim:
                for d in glob.glob(BUILD + "/simobj-*"):
                    if time.time() - os.path.getmtime(d) > 3600:
                        shutil.rmtree(d, ignore_errors=True)
                os.mkdir(sdir + ".tmp")
                for o in sobjs:
                    shutil.copy(o, sdir + ".tmp")
                os.rename(sdir + ".tmp", sdir)
            aa = os.path.join(tmp, "aa.o")
            run(["ld", "-r", "-d", "-o", aa] + aobjs)
            have = set()
            for o in sobjs:
                for l in run(["nm", "--defined-only", o]).splitlines():
                    p = l.split()
                    if len(p) == 3 and p[2].startswith("sim_"):
                        have.add(p[2])
            undef = [l.split()[-1] for l in run(["nm", "-u", aa]).splitlines() if l.strip()]
            redir = [u for u in undef if "sim_" + u in have]
            with open(os.path.join(tmp, "redef"), "w") as f:
                f.write("main aa_main\n")
                for u in redir:
                    f.write("%s sim_%s\n" % (u, u))
            fl = "alloc,load,data,contents"
            secs = [l.split()[1] for l in run(["objdump", "-h", aa]).splitlines() if re.match(r"\s+\d+ \.", l)]
            ren = []
            for s in secs:
                if s.startswith(".bss") or s.startswith(".data"):
                    if s.startswith(".bss"):
                        run(["objcopy", "--set-section-flags", "%s=%s" % (s, fl), aa])
                    ren += ["--rename-section", "%s=aa_data,%s" % (s, fl)]
                if s.startswith(".tdata") or s.startswith(".tbss") or s.startswith(".init_array"):
                    sys.stderr.write("build: unsupported section %s\n" % s)
                    raise SystemExit(2)
            run(["objcopy"] + ren + ["--redefine-syms=" + os.path.join(tmp, "redef"), aa])
            # Pages no access is allowed to, below and above AardWARC's own data:
            # an overrun ends the simulated process, not the simulator.
            for g in ("lo", "hi"):
                with open(os.path.join(tmp, g + ".s"), "w") as f:
                    f.write('.section aa_data,"aw",@progbits\n.globl aa_guard_%s,aa_guard_%s_end\n.balign 4096\n'
                        "aa_guard_%s: .space 65536\naa_guard_%s_end:\n.section .note.GNU-stack\n" % (g, g, g, g))
                run(["gcc", "-c", "-o", os.path.join(tmp, g + ".o"), os.path.join(tmp, g + ".s")])
            run(["g++", "-no-pie", "-o", out + ".tmp", os.path.join(tmp, "lo.o")] + sobjs +
                [aa, os.path.join(tmp, "hi.o"), "-lz", "-lmd", "-lbsd", "-lm"])
            with open(os.path.join(BUILD, "symbols-%s.txt" % thash), "w") as f:
                f.write("simulated: %s\npassthrough: %s\n" % (" ".join(sorted(redir)), " ".join(sorted(set(undef) - set(redir)))))
            os.rename(out + ".tmp", out)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    return out, thash

if __name__ == "__main__":
    print(build()[0])
