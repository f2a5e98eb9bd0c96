#!/bin/bash
# mkseed.sh <id> <property> <needs> <what it breaks> < demo.cpp : makes /verif/seeded/<id> from the changes in the scratch clone /tmp/sw, and resets it
set -e
D=/verif/seeded/$1; mkdir -p $D
git -C /tmp/sw diff > $D/patch.diff
[ -s $D/patch.diff ] || { echo "$1: empty patch"; exit 1; }
cat > $D/demo.cpp
cat > $D/demo.sh <<'X'
#!/bin/bash
# run in the root of the repository after its build: 0 when the property held
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 1
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++11 -w -I"$PWD" "$here/demo.cpp" "$PWD/_build/bin/libfuzzylite-static.a" -lpthread -o "$tmp/demo" || exit 1
cd "$tmp" && ./demo
X
python3 - "$1" "$2" "$3" "$4" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open('/verif/seeded/%s/meta.json'%sys.argv[1],'w'),indent=1)
P
git -C /tmp/sw reset -q --hard
