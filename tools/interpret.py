"""Plays small sessions and graphs under the interpreter for undefined behaviour, several processes at a time.

interpret.py <root> <target dir> <work dir> <seconds> [small|graphs <case>]
exit 0: nothing found; 1: undefined behaviour, with a VIOLATION line; 2: no answer
"""
import json, os, re, subprocess, sys, time

root, target, work, secs = sys.argv[1:4] + [int(sys.argv[4])]
only = sys.argv[5:7]
ID = "C25"
seed = os.environ.get("VERIF_SEED", "1")
corpus = f"{work}/corpus"
BASE = "-Zmiri-disable-isolation -Zmiri-ignore-leaks"
MODES = {
    # the models of borrowing are too slow, and too strict for a dependency, to run the parser under
    "small": (BASE + " -Zmiri-disable-stacked-borrows", corpus),
    "graphs": (BASE + " -Zmiri-tree-borrows", "graph"),
}


def start(mode, first, step, secs, log):
    flags, what = MODES[mode]
    env = dict(os.environ, RUSTUP_TOOLCHAIN="nightly", CARGO_TARGET_DIR=target, MIRIFLAGS=flags, CARGO_NET_OFFLINE="true")
    cmd = ["cargo", "miri", "run", "--offline", "-q", "--", what, str(first), str(step), str(secs)]
    return subprocess.Popen(cmd, cwd=f"{root}/miri", env=env, stdout=open(log, "w"), stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, start_new_session=True)


def session(n):
    """the texts of a session, for the report"""
    b = open(corpus, "rb").read()
    at, k, out = 0, 0, []
    while at < len(b):
        e = b.index(b"\n", at)
        n_bytes = int(b[at + 2 : e])
        if k == n:
            out.append(f"{chr(b[at])} {b[e+1:e+1+n_bytes].decode(errors='replace')}")
        if b[at : at + 1] == b"E":
            k += 1
        at = e + n_bytes + 2
    return "\n".join(out)


jobs = []
if only:
    jobs.append((only[0], start(only[0], int(only[1]), 10**9, 100000, f"{work}/0"), f"{work}/0"))
else:
    for i in range(6):
        jobs.append(("small", start("small", i, 6, secs, f"{work}/s{i}"), f"{work}/s{i}"))
    shift = (int(seed) * 37) % 400
    for i in range(2):
        jobs.append(("graphs", start("graphs", shift + i, 2, secs, f"{work}/g{i}"), f"{work}/g{i}"))
end = time.time() + secs + 240
count = dict(small=0, graphs=0, accepted=0, blocks=0, panics=0)
bad, errors, samples = [], [], []
for mode, p, log in jobs:
    late = False
    try:
        rc = p.wait(max(1, end - time.time()))
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.wait()
        late, rc = True, 0
    t = open(log, errors="replace").read()
    for m in re.finditer(r"^end (\d+) accepted (\d+) blocks (\d+) panic (\d)$", t, re.M):
        count[mode] += 1
        count["accepted"] += int(m[2])
        count["blocks"] += int(m[3])
        count["panics"] += int(m[4])
        if len(samples) < 4 and mode == "small":
            samples.append(f"small#{m[1]}: " + session(int(m[1])))
    last = re.findall(r"^start (\d+)$", t, re.M)
    if "Undefined Behavior" in t:
        bad.append((mode, last[-1] if last else "?", t[t.index("Undefined Behavior") :][:4000]))
    elif rc != 0:
        errors.append(t[-1500:])
if only and not bad:
    print("no undefined behaviour" if not errors else errors[0])
    sys.exit(2 if errors else 0)
for mode, case, t in bad[:3]:
    os.makedirs(f"{root}/replays", exist_ok=True)
    path = f"{root}/replays/{ID}-{seed}-{mode}-{case}.txt"
    with open(path, "w") as f:
        f.write(f"replay: VERIF_SEED={seed} ./check {ID} quick {mode} {case}\n\n{t}\n\n")
        if mode == "small" and case != "?":
            f.write(session(int(case)) + "\n")
    print(f"VIOLATION property={ID} replay={path}")
if not only:
    f = f"{root}/evidence/{ID}.json"
    ev = json.load(open(f))
    c = ev["coverage"]
    for k, v in count.items():
        c["interpreted_" + k] = v
    done = count["small"] + count["graphs"]
    c["evaluations"] += done
    c["distinct_nontrivial"] += count["graphs"] + min(count["small"], count["accepted"])
    c["samples"] += samples
    ev["violations"] += len(bad)
    ev["wall_s"] = round(ev["wall_s"] + secs, 3)
    json.dump(ev, open(f, "w"))
if bad:
    sys.exit(1)
if errors or count["small"] < 10 or count["graphs"] < 2 or count["accepted"] < 5:
    print("ERROR: the interpreter gave no answer:", count, *errors[:2], file=sys.stderr)
    sys.exit(2)
print(f"{ID} interpreted: {count}")
