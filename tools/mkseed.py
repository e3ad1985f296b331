"""mkseed.py SPEC.json|-   {"id","property","needs","what_it_breaks","edits":[[file,old,new],...],"demo":text,"files":{name:text}}"""
import json, os, subprocess, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def mk(id, property, needs, what_it_breaks, edits, demo, files=None, copy=()):
    import shutil, tempfile
    d = f"{root}/seeded/{id}"
    os.makedirs(d, exist_ok=True)
    assert not subprocess.run(["git", "-C", "/repo", "status", "--porcelain", "-uno"], capture_output=True, text=True).stdout, "repo not clean"
    w = tempfile.mkdtemp()
    subprocess.run(f"git -C /repo archive HEAD | tar x -C {w} && cd {w} && git init -q && git add -A && git -c user.name=x -c user.email=x commit -qm x", shell=True, check=True)
    for f, old, new in edits:
        p = f"{w}/{f}"
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", w, "diff"], capture_output=True, text=True).stdout
    # only original lines may change
    for f, _, _ in edits:
        b = set(subprocess.run(["git", "-C", "/repo", "show", f"d878024:{f}"], capture_output=True, text=True).stdout.splitlines())
        for l in diff.splitlines():
            if l.startswith("-") and not l.startswith("---") and len(edits) == 1 and l[1:] not in b:
                print("NOT ORIGINAL:", l)
    open(f"{d}/patch.diff", "w").write(diff)
    open(f"{d}/demo.sh", "w").write(demo)
    os.chmod(f"{d}/demo.sh", 0o755)
    for n, t in (files or {}).items():
        open(f"{d}/{n}", "w").write(t)
    for c in copy:
        shutil.copy(c, d)
    json.dump({"property": property, "needs": needs, "what_it_breaks": what_it_breaks}, open(f"{d}/meta.json", "w"), indent=1)
    shutil.rmtree(w)
    print(diff)
