#!/usr/bin/env python3
"""plant.py FILE.py...: write seeded/<id>/ from bug descriptions (list BUGS of dicts)."""
import difflib, json, os, shutil, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(R, "tools", "seeds")
for f in sys.argv[1:]:
    ns = {}
    exec(open(f).read(), ns)
    for b in ns["BUGS"]:
        d = os.path.join(R, "seeded", b["id"])
        os.makedirs(d, exist_ok=True)
        diff = ""
        edits = {}
        for file, old, new in b["edits"]:
            p = os.path.join("/repo", file)
            s = edits.get(file) or open(p).read()
            assert s.count(old) == b.get("count", 1), (b["id"], file, s.count(old))
            edits[file] = s.replace(old, new)
        for file, s in edits.items():
            a = open(os.path.join("/repo", file)).read()
            diff += "".join(difflib.unified_diff(a.splitlines(True), s.splitlines(True), "a/" + file, "b/" + file))
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        if "demo" in b:
            open(os.path.join(d, "demo.sh"), "w").write("#!/bin/bash\n" + b["demo"])
            for n, t in b.get("files", {}).items():
                open(os.path.join(d, n), "w").write(t)
        else:
            shutil.copy(os.path.join(S, "run.rs"), os.path.join(d, "run.rs"))
            for n, t in b.get("files", {}).items():
                os.makedirs(os.path.dirname(os.path.join(d, n)), exist_ok=True)
                open(os.path.join(d, n), "w").write(t)
            sh = "#!/bin/bash\n" + open(os.path.join(S, "lib.sh")).read()
            for i, (opts, prog, want) in enumerate(b["progs"]):
                open(os.path.join(d, f"p{i}.eu"), "w").write(prog)
                open(os.path.join(d, f"p{i}.want"), "w").write(want)
                sh += f'timeout 120 env {b.get("env", "")} "$W/run" {opts.replace("@", "$HERE/")} "$HERE/p{i}.eu" > "$W/out" 2>/dev/null\n'
                sh += f'cmp -s "$W/out" "$HERE/p{i}.want" || {{ echo "p{i}:"; cat "$W/out"; exit 1; }}\n'
            open(os.path.join(d, "demo.sh"), "w").write(sh)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        print(b["id"], len(diff))
