"""development aid: seed(id, property, deps, needs, breaks, edits, demo) writes /verif/seeded/<id>/"""
import json, os, subprocess
def seed(id, prop, deps, needs, breaks, edits, demo):
    d = "/verif/seeded/" + id
    os.makedirs(d, exist_ok=True)
    src = "/tmp/seedsrc"
    if not os.path.isdir(src):
        subprocess.run(["git", "clone", "-q", "/repo", src], check=True)
    subprocess.run("git -C %s fetch -q /repo HEAD && git -C %s checkout -q -f FETCH_HEAD" % (src, src), shell=True, check=True)
    try:
        for f, old, new in edits:
            p = src + "/" + f
            t = open(p).read()
            assert t.count(old) == 1, (id, f, old, t.count(old))
            open(p, "w").write(t.replace(old, new))
        diff = subprocess.run(["git", "-C", src, "diff"], capture_output=True).stdout
    finally:
        subprocess.run(["git", "-C", src, "checkout", "-q", "--", "."])
    open(d + "/patch.diff", "wb").write(diff)
    open(d + "/demo.sh", "w").write(open("/verif/tools/demo_template.sh").read().replace("@DEPS@", " ".join(deps)))
    open(d + "/demo.rs", "w").write(demo)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    print("seeded", id)
