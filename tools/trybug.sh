#!/bin/bash
# trybug.sh ID [PROP...]: applies a planted bug to a scratch copy of /repo and runs the checks on it.
id=$1; shift
props=${*:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
t=$(mktemp -d); trap 'rm -rf -- "$t"' EXIT
cp -a /repo "$t/repo"
git -C "$t/repo" apply /verif/seeded/$id/patch.diff || exit 2
for p in $props; do echo "== $id $p"; (cd /verif && VERIF_REPO=$t/repo ./check $p | cut -c1-300 | grep -v "^NOTE"); grep -h -A2 "VERIF-FAIL" /verif/replay/$p.txt 2>/dev/null | head -2 | cut -c1-300; done
