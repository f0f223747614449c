#!/bin/bash
# mkseed.sh ID PROP NEEDS WHAT : records the current diff of /tmp/w/seedrepo as /verif/seeded/ID, with /tmp/w/demo.cpp as its demonstration,
# after confirming that the demonstration passes on /repo and fails with the change.
set -e
ID=$1; D=/verif/seeded/$ID; mkdir -p $D
git -C /tmp/w/seedrepo diff > $D/patch.diff; [ -s $D/patch.diff ]
cp /tmp/w/demo.cpp $D/demo.cpp
if [ -n "$SPICE" ]; then mkdir -p $D/cspice; cp /verif/stub/cspice/SpiceUsr.h $D/cspice/; fi
cat > $D/demo.sh <<'S'
#!/bin/bash
# run with cwd = the repository; exit 0 when the behaviour is right
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
export HUIRA_LOG_DIR=$T TMPDIR=$T
g++ -std=c++20 -O1 -w -D_GLIBCXX_ASSERTIONS -DHUIRA_VERSION='"0.0.0"' CXXEXTRA -I"$D" -I"$R/include" -o "$T/demo" "$D/demo.cpp" LIBS || { echo "demo does not compile"; exit 99; }
cd "$T" && timeout 120 ./demo
S
sed -i "s|CXXEXTRA|$CXXEXTRA|; s|LIBS|${LIBS:--ltbb -lembree4 -lassimp -lcfitsio -lpng -ltiff -lfftw3f -lturbojpeg -ljpeg -lpthread}|" $D/demo.sh; chmod +x $D/demo.sh
python3 - "$@" <<'P'
import json,sys
i,p,n,w=sys.argv[1:5]; json.dump(dict(property=p,needs=n,what_it_breaks=w),open('/verif/seeded/%s/meta.json'%i,'w'),indent=1)
P
set +e
(cd /repo && bash $D/demo.sh) >/tmp/w/o1 2>&1 && echo clean ok || { echo CLEAN FAILS; tail -3 /tmp/w/o1; }
(cd /tmp/w/seedrepo && bash $D/demo.sh) >/tmp/w/o2 2>&1; r=$?; echo "patched rc=$r"; tail -2 /tmp/w/o2
echo "check:"; HUIRA_REPO=/tmp/w/seedrepo python3 /verif/check.py $2 2>&1 | grep -E "VIOLATION|ok" | head -3
git -C /tmp/w/seedrepo checkout -q -- .
