#!/usr/bin/env python3
"""mkbug.py ID PROPERTY FILE NEEDS BREAKS < edits: makes /verif/seeded/ID with the
patch for replacing text in /repo's FILE. stdin holds pairs of texts: lines
'<<<', '===', '>>>' around the old and the new text. 'FILE: name' switches file."""
import json, os, subprocess, sys, tempfile, shutil
ident, prop, fname, needs, breaks = sys.argv[1:6]
text = sys.stdin.read()
d = tempfile.mkdtemp()
subprocess.check_call(["git", "clone", "-q", "/repo", d + "/r"])
cur = fname
for part in text.split("<<<\n")[0:]:
    if part.strip().startswith("FILE:"):
        cur = part.split("FILE:")[1].strip()
        continue
    if not part.strip():
        continue
    body, rest = part.split(">>>", 1)
    old, new = body.split("===\n", 1)
    old, new = old.removesuffix("\n"), new.removesuffix("\n")
    p = os.path.join(d, "r", cur)
    s = open(p, newline="").read()
    crlf = "\r\n" in s
    if crlf:
        old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
    assert s.count(old) == 1, (cur, s.count(old), old)
    open(p, "w", newline="").write(s.replace(old, new))
    if "FILE:" in rest:
        cur = rest.split("FILE:")[1].strip()
b = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded", ident)
os.makedirs(b, exist_ok=True)
open(b + "/patch.diff", "wb").write(subprocess.check_output(["git", "-C", d + "/r", "diff"]))
json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(b + "/meta.json", "w"), indent=1)
shutil.rmtree(d)
if not os.path.exists(b + "/demo.sh"):
    open(b + "/demo.sh", "w").write('''#!/bin/bash
# builds demo.c with the sources of the repository and runs it in a scratch folder
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
cd "$T" || exit 2
S=$(ls /repo/*.c)
for x in $(sed -n 's/^.. replaces: //p' "$D/demo.c"); do S=$(echo "$S" | grep -v "/$x$"); done
gcc -g -O1 -w -mcx16 -iquote /repo "$D/demo.c" $S -o "$T/demo" -lpthread -lm -latomic || exit 2
timeout 100 "$T/demo"
R=$?
cd / && rm -r -- "$T"
exit $R
''')
