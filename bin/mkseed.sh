#!/bin/bash
# mkseed.sh ID PROPERTY "needs" "what it breaks" : turn the edit in the scratch tree /tmp/w (a copy of /repo)
# and the demonstration /tmp/demo.c into /verif/seeded/ID, after confirming that the edited tree
# builds, passes the tests, and that the demonstration tells the two trees apart.
set -e
ID=$1 PROP=$2 NEEDS=$3 WHAT=$4; W=/tmp/w; S=/verif/seeded/$ID
git -C $W diff -- . > /tmp/seed.diff; [ -s /tmp/seed.diff ] || { echo "no edit"; exit 1; }
mkdir -p $S; cp /tmp/seed.diff $S/patch.diff; cp ${DEMO:-/tmp/demo.c} $S/demo.c
for f in av1w.c av1w.h dech.h scen.h streams.h; do cp /verif/lib/$f $S/; done
cat > $S/demo.sh <<'D'
#!/bin/bash
# run with cwd /repo after the build: exit 0 if the property holds
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 0
trap 'rm -rf -- "$T"' EXIT
L=$PWD/_build/src
${CC:-cc} -O1 -g -w -std=gnu11 CFLAGS_EXTRA -I include -I _build/include -I _build/include/dav1d -I "$D" -o "$T/demo" "$D/demo.c" "$D/av1w.c" "$L/libdav1d.so" -Wl,-rpath,"$L" -lpthread -lm -ldl || { echo "demo does not build"; exit 2; }
cd "$T" && timeout ${DEMO_TIMEOUT:-120} ./demo "$OLDPWD"
D
sed -i "s/CFLAGS_EXTRA/${CFX:-}/" $S/demo.sh; chmod +x $S/demo.sh
[ -n "$DEMOSH" ] && cp $DEMOSH $S/demo.sh
python3 - "$PROP" "$NEEDS" "$WHAT" > $S/meta.json <<'P'
import json,sys; print(json.dumps(dict(property=sys.argv[1],needs=sys.argv[2],what_it_breaks=sys.argv[3]),indent=1))
P
(cd $W && ninja -C _build > /tmp/seed.b 2>&1 || { tail /tmp/seed.b; exit 1; })
set +e
(cd /repo && bash $S/demo.sh > /tmp/seed.o1 2>&1; echo "unchanged: $?"; tail -3 /tmp/seed.o1)
(cd $W && bash $S/demo.sh > /tmp/seed.o2 2>&1; echo "patched: $?"; tail -3 /tmp/seed.o2)
if [ -z "$NOTEST" ]; then (cd $W && meson test -C _build --no-rebuild > /tmp/seed.t 2>&1; grep -E "^(Ok|Fail|Timeout)" /tmp/seed.t | tr '\n' ' '; echo); fi
