#!/bin/bash
# mkseed.sh ID PROPERTY: turns the edits in /tmp/seedrepo (a copy of /repo) and /tmp/seed/{demo.cpp,needs,breaks,srcs} into seeded/ID
set -e
ID=$1; P=$2; S=/verif/seeded/$ID
mkdir -p $S/stubs
cp -r /verif/stubs/ser4cpp /verif/stubs/spdlog $S/stubs/
mkdir -p $S/stubs/exe4cpp && cp -r /verif/stubs/exe4cpp/. $S/stubs/exe4cpp/
[ -f /tmp/seed/asio ] && cp /verif/stubs/asio_stub/asio.hpp $S/stubs/
git -C /tmp/seedrepo diff > $S/patch.diff
cp /tmp/seed/demo.cpp $S/demo.cpp
[ -f /tmp/seed/extra.h ] && cp /tmp/seed/extra.h $S/
cat > $S/demo.sh <<X
#!/bin/bash
# run in the repository: exit 0 when the demonstrated behaviour is right
D=\$(cd "\$(dirname "\$0")" && pwd)
W=\$(mktemp -d)
trap 'rm -rf "\$W"' EXIT
SRC=
for s in $(cat /tmp/seed/srcs); do SRC="\$SRC lib/src/\$s"; done
g++ -std=c++17 -w -O1 -g -I"\$D/stubs" -I"\$D" -Ilib/include -Ilib/src "\$D/demo.cpp" \$(ls \$SRC) -o "\$W/demo" -pthread || exit 3
timeout 100 "\$W/demo"
X
chmod +x $S/demo.sh
python3 - "$P" "$S" <<'X'
import json,sys
json.dump({"property":sys.argv[1],"needs":open('/tmp/seed/needs').read().strip(),"what_it_breaks":open('/tmp/seed/breaks').read().strip()},open(sys.argv[2]+'/meta.json','w'),indent=1)
X
cd /repo && git diff --quiet && bash $S/demo.sh >/tmp/seed/clean.out 2>&1 || { echo "DEMO FAILS ON CLEAN TREE"; tail -5 /tmp/seed/clean.out; exit 1; }
cd /tmp/seedrepo && if bash $S/demo.sh >/tmp/seed/bug.out 2>&1; then echo "DEMO PASSES WITH THE BUG"; exit 1; fi
tail -2 /tmp/seed/bug.out
git -C /repo apply --check $S/patch.diff && echo "seed $ID ok"
