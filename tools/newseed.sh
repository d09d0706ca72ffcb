#!/bin/bash
# newseed.sh ID PROPERTY: turns the uncommitted change in the scratch copy /tmp/seed into seeded/ID
# (demo.rs and meta text are taken from /tmp/seed.d/{demo.rs,needs,breaks}).
set -e
d=/verif/seeded/$1
mkdir -p "$d"
git -C /tmp/seed diff > "$d/patch.diff"
cp /verif/tools/seedkit/demo.sh /verif/tools/seedkit/h.rs /verif/tools/seedkit/Cargo.lock /tmp/seed.d/demo.rs "$d/"
chmod +x "$d/demo.sh"
python3 - "$d" "$2" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":open("/tmp/seed.d/needs").read().strip(),"what_it_breaks":open("/tmp/seed.d/breaks").read().strip()},open(sys.argv[1]+"/meta.json","w"),indent=1)
P
