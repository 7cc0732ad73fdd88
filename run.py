#!/usr/bin/env python3
"""Builds and runs the check of one property against the working tree of /repo.

  run.py PROPERTY quick|thorough        the registered commands
  run.py PROPERTY --replay FILE         re-runs a recorded failure
  run.py --build-all                    compiles everything (setup)

Objects are cached in /verif/build by the content of what they are made from,
so the result only ever depends on the current source text.
"""
import concurrent.futures, fcntl, glob, hashlib, os, subprocess, sys

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CXX = "g++"
FLAGS = ["-std=c++17", "-O1", "-g1", "-fno-omit-frame-pointer",
         "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
         "-D_GLIBCXX_DEBUG", "-ftrivial-auto-var-init=pattern", "-w"]
LINK = ["-fsanitize=address,undefined"]


def read(path):
    with open(path, "rb") as f:
        return f.read()


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(hashlib.sha256(p).digest())
    return h.hexdigest()[:32]


def headers(root, pattern):
    files = sorted(glob.glob(os.path.join(root, pattern), recursive=True))
    return digest(*[x for f in files for x in (os.path.relpath(f, root), read(f))])


def compile_one(job):
    src, obj, cmd = job
    if os.path.exists(obj):
        os.utime(obj)
        return None
    tmp = "%s.%d.tmp" % (obj, os.getpid())
    p = subprocess.run(cmd + ["-c", src, "-o", tmp], capture_output=True, text=True)
    if p.returncode != 0:
        return "%s\n%s" % (src, p.stderr[-3000:])
    os.replace(tmp, obj)
    return None


def prune(directory, limit):
    files = [os.path.join(directory, f) for f in os.listdir(directory)]
    files = sorted(files, key=os.path.getmtime)
    total = sum(os.path.getsize(f) for f in files)
    while files and total > limit:
        f = files.pop(0)
        total -= os.path.getsize(f)
        os.remove(f)


def build(properties):
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        version = subprocess.run([CXX, "--version"], capture_output=True, text=True).stdout
        repo_h = headers(os.path.join(REPO, "include"), "**/*.h")
        own_h = headers(os.path.join(VERIF, "harness"), "**/*.h")
        base = [version, " ".join(FLAGS)]
        jobs, lib, own = [], [], {}

        def add(src, extra):
            obj = os.path.join(BUILD, "obj", digest(*base, *extra, src, read(src)) + ".o")
            cmd = [CXX] + FLAGS + ["-I" + os.path.join(REPO, "include"),
                                   "-I" + os.path.join(VERIF, "harness")]
            jobs.append((src, obj, cmd))
            return obj

        for p in properties:
            own[p] = add(os.path.join(VERIF, "harness", p.lower() + ".cc"), [repo_h, own_h])
        for src in sorted(glob.glob(os.path.join(REPO, "src", "*", "*.cc"))):
            lib.append(add(src, [repo_h]))
        support = [add(os.path.join(VERIF, "harness", s), [repo_h, own_h])
                   for s in ("engine.cc", "model.cc")]
        with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as pool:
            errors = [e for e in pool.map(compile_one, jobs) if e]
        if errors:
            print("BUILD FAILED", file=sys.stderr)
            for e in errors[:5]:
                print(e, file=sys.stderr)
            return None
        bins = {}
        todo = []
        for p in properties:
            objs = [own[p]] + support + lib
            exe = os.path.join(BUILD, "bin", p + "-" + digest(*objs))
            bins[p] = exe
            if not os.path.exists(exe):
                todo.append((exe, objs))

        def link(t):
            exe, objs = t
            tmp = exe + ".tmp"
            r = subprocess.run([CXX] + LINK + objs + ["-o", tmp], capture_output=True, text=True)
            if r.returncode != 0:
                return r.stderr[-3000:]
            os.replace(tmp, exe)
            return None

        with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as pool:
            errors = [e for e in pool.map(link, todo) if e]
        if errors:
            print("LINK FAILED", errors[0], file=sys.stderr)
            return None
        prune(os.path.join(BUILD, "obj"), 1500 << 20)
        prune(os.path.join(BUILD, "bin"), 1500 << 20)
        return bins


# how many times the laws' own quick counts a quick check runs, so that each
# takes some 20 s on 8 cores
QUICK = {"P01": 2, "P02": 3, "P03": 2, "P04": 2, "P05": 5, "P06": 6, "P07": 8,
         "P08": 6, "P09": 8, "P10": 7, "P11": 6, "P12": 1.5, "P13": 3,
         "P14": 1.5, "P15": 8, "P16": 4, "P17": 4, "P18": 4, "P19": 2,
         "P20": 2, "P21": 20, "P22": 6, "P23": 6, "P24": 10, "P25": 5,
         "P26": 2, "P27": 20, "P28": 12, "P29": 10, "P30": 1}


def main():
    args = sys.argv[1:]
    if args and args[0] == "--build-all":
        props = sorted(os.path.basename(f)[:-3].upper()
                       for f in glob.glob(os.path.join(VERIF, "harness", "p[0-9]*.cc")))
        return 0 if build(props) is not None else 2
    if len(args) < 2:
        print(__doc__)
        return 2
    prop = args[0]
    bins = build([prop])
    if bins is None:
        return 2
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=77:detect_stack_use_after_return=0:allocator_may_return_null=1"
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=77"
    replays = os.path.join(VERIF, "replays")
    os.makedirs(replays, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    cmd = [bins[prop], "--replaydir", replays, "--known", os.path.join(VERIF, "known-findings.jsonl")]
    if args[1] == "--replay":
        cmd += ["--replay", args[2]]
    else:
        tier = args[1]
        cmd += ["--tier", tier, "--seed", os.environ.get("VERIF_SEED", "1"),
                "--evidence", os.path.join(VERIF, "evidence", prop + ".json")] + args[2:]
        if tier == "quick" and "--scale" not in args:
            cmd += ["--scale", str(QUICK.get(prop, 1))]
    sys.stdout.flush()
    return subprocess.run(cmd, env=env).returncode


if __name__ == "__main__":
    sys.exit(main())
