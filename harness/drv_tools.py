#!/usr/bin/env python3
"""Runs the command line tools of /repo/scripts against a mapper that follows a history."""
import concurrent.futures as cf
import json, os, random, re, shutil, subprocess, sys
a = dict(x.split("=", 1) for x in sys.argv[1:])
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("NDT_REPO", "/repo")
out, seed, part, parts, n = a["out"], int(a["seed"]), int(a["part"]), int(a["parts"]), int(a["n"])
consts = {}
for line in open(REPO + "/srv/Configure.srv"):
    if line.strip() == "---":
        break
    m = re.match(r"\s*\w+\s+(\w+)\s*=\s*(\d+)", line)
    if m:
        consts[m.group(1)] = int(m.group(2))
bits = {k: [i for i in range(32) if v >> i & 1] for k, v in consts.items()}
FILES = {"plain": "map.bag", "spaced": "my map (2).bag", "relative": "../maps/./x/", "absolute": "/tmp/ndt/no such/map",
         "unicode": "kärtchen-地図.bag", "quoted": "a'b\"c\\d$HOME;*.bag", "empty": ""}


def history():
    r = random.Random(seed)
    with open(a["in"]) as f:
        all_ = [l.split() for l in f]
    r = random.Random(seed // 1000)
    r.shuffle(all_)
    # the file name matters only to those that take one
    all_ = [h for h in all_ if h[0] in ("load_map", "save_map") or h[3] == "-"]
    return all_[:n][part::parts]


def run(k, h):
    tool, up, delay, word = h
    d = out + ".%d.d" % k
    os.makedirs(d)
    log = os.path.join(d, "log")
    world = dict(up=None if up == "-1" else int(up) / 4, delay=None if delay == "-1" else int(delay) / 4, consts=consts)
    file = [] if word == "-" else [FILES[word]]
    ev = [json.dumps(dict(e="new", tool=tool, file=file, up=up, delay=delay, consts=bits), separators=(",", ":"))]
    env = dict(PATH=os.environ["PATH"], PYTHONPATH=VERIF + "/ros_stub/py", PYTHONDONTWRITEBYTECODE="1", NDT_WORLD=json.dumps(world),
               NDT_LOG=log, HOME=d, LC_ALL="C.UTF-8")
    needs = tool in ("load_map", "save_map")
    try:
        p = subprocess.run([sys.executable, REPO + "/scripts/" + tool + ".py"] + (file if needs else []), cwd=d, env=env,
                           stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
        code = p.returncode
    except subprocess.TimeoutExpired:
        code = 124
    if os.path.exists(log):
        ev += open(log).read().split("\n")[:-1]
    if not any('"giveup"' in x for x in ev):
        ev.append(json.dumps(dict(e="exit", code=code), separators=(",", ":")))
    shutil.rmtree(d)
    return ev


with cf.ThreadPoolExecutor(2) as ex, open(out, "w") as f:
    for ev in ex.map(lambda kh: run(*kh), enumerate(history())):
        f.write("\n".join(ev) + "\n")
