#!/bin/bash
# development aid: seed.sh <id> <property> <needs> <what> <python edit script> <demo python>
# edits a scratch copy of /repo with the python snippet (function sub(file, old, new)) and stores the diff
set -euo pipefail
id=$1 prop=$2 needs=$3 what=$4 edit=$5 demo=$6
t=$(mktemp -d)
cp -a /repo "$t/repo"
cd "$t/repo"
python3 - <<PY
def sub(f, old, new, count=1):
    p = "src/pynmeagps/" + f
    s = open(p, newline="", encoding="utf-8").read()
    crlf = "\r\n" in s
    if crlf:
        old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
    assert s.count(old) >= 1, (f, old)
    s = s.replace(old, new, count)
    open(p, "w", newline="", encoding="utf-8").write(s)
$edit
PY
d=/verif/seeded/$id
mkdir -p "$d"
git diff > "$d/patch.diff"
printf '%s\n' "$demo" > "$d/demo.py"
cat > "$d/demo.sh" <<'SH'
#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent PYTHONPATH="$PWD/src"
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
exec "$py" "$here/demo.py"
SH
python3 - "$id" "$prop" "$needs" "$what" <<'PY'
import json, sys
json.dump({"property": sys.argv[2], "needs": sys.argv[3], "what_it_breaks": sys.argv[4]},
          open(f"/verif/seeded/{sys.argv[1]}/meta.json", "w"), indent=1)
PY
cd /
case "$t" in /tmp/*) rm -rf "$t";; esac
python3 /verif/tools/mkseed.py "$id"
