#!/usr/bin/env python3
"""mkseed.py SPEC.py: writes seeded/<id>/ from a list of dicts
   id, property, needs, breaks, edits=[(file, old, new)], t (C test source), or demo (shell text), files={name: text}."""
import sys, os, json, subprocess, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# Compiles t.c against the built Mes C Library and runs it in a scratch directory.
d=$(cd "$(dirname "$0")" && pwd); w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
gcc -w -static -nostdinc -nostdlib -fno-builtin -fno-stack-protector -D HAVE_CONFIG_H=1 -I include -I include/linux/x86_64 -I lib \\
  gcc-lib/x86_64-mes/crt1.o "$d/t.c" -o "$w/t" -L gcc-lib/x86_64-mes -L gcc-lib -l:libc+gnu.a -lgcc || exit 2
cd "$w" && timeout 20 ./t
'''
ns = {}
exec(open(sys.argv[1]).read(), ns)
for s in ns["SEEDS"]:
    d = "%s/seeded/%s" % (V, s["id"])
    os.makedirs(d, exist_ok=True)
    out = ""
    for f in sorted(set(e[0] for e in s["edits"])):
        a = open("/repo/" + f).read()
        b = a
        for g, old, new in s["edits"]:
            if g == f:
                assert b.count(old) == 1, (s["id"], f, b.count(old), old)
                b = b.replace(old, new)
        t = tempfile.mkdtemp()
        for side, txt in (("a", a), ("b", b)):
            os.makedirs(os.path.dirname("%s/%s/%s" % (t, side, f)))
            open("%s/%s/%s" % (t, side, f), "w").write(txt)
        out += subprocess.run(["diff", "-u", "a/" + f, "b/" + f], cwd=t, stdout=subprocess.PIPE, text=True).stdout
        shutil.rmtree(t)
    import re
    out = re.sub(r"^((?:---|\+\+\+) \S+)\t.*$", r"\1", out, flags=re.M)
    open(d + "/patch.diff", "w").write(out)
    for n, txt in s.get("files", {}).items():
        open(d + "/" + n, "w").write(txt)
    if "t" in s:
        open(d + "/t.c", "w").write(s["t"])
    open(d + "/demo.sh", "w").write(s.get("demo", DEMO))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
    print(s["id"])
