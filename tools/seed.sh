#!/bin/bash
# seed.sh ID PROPERTY EDITFILE DEMO.cpp NEEDS BREAKS: validates a planted bug in a scratch copy and stores it in seeded/ID.
# EDITFILE: python list of (file, old, new) edits.
set -e
id=$1; prop=$2; edit=$(realpath "$3"); demo=$(realpath "$4"); needs=$5; breaks=$6; extra=$7
S=$(mktemp -d /tmp/seedXXXXXX); trap 'rm -rf "$S"' EXIT
git -C /repo archive HEAD | tar x -C "$S"; cd "$S"; git init -q; git add -A; git -c user.email=a@b -c user.name=x commit -qm base
python3 - "$edit" <<'P'
import sys
for f,o,n in eval(open(sys.argv[1]).read()):
    s=open(f,newline='',encoding='latin-1').read()
    if '\r\n' in s: o=o.replace('\n','\r\n'); n=n.replace('\n','\r\n')
    assert s.count(o)==1,(f,s.count(o),o)
    open(f,'w',newline='',encoding='latin-1').write(s.replace(o,n))
P
D=/verif/seeded/$id; mkdir -p "$D"; git diff > "$D/patch.diff"; cp "$demo" "$D/demo.cpp"
cat > "$D/demo.sh" <<X
#!/bin/bash
# exit 0 when the property holds for this scenario
here=\$(cd "\$(dirname "\$0")" && pwd); d=\$(mktemp -d); trap 'rm -rf "\$d"' EXIT
g++ -std=c++17 -O1 -w -I"\$PWD" "\$here/demo.cpp" -o "\$d/demo" -L"\$PWD/_build/xo" -lxo -Wl,-rpath,"\$PWD/_build/xo" -lpthread $extra || exit 2
cd "\$d" && timeout 60 ./demo
X
chmod +x "$D/demo.sh"
python3 - "$D" "$prop" "$needs" "$breaks" <<'P'
import sys,json
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+'/meta.json','w'),indent=1)
P
cd /repo; bash /opt/vp/build.sh >/dev/null 2>&1
bash "$D/demo.sh" || { echo "DEMO FAILS ON CLEAN TREE"; exit 1; }
git -C /repo apply "$D/patch.diff"; trap 'git -C /repo checkout -q -- .; rm -rf "$S"; bash /opt/vp/build.sh >/dev/null 2>&1' EXIT
bash /opt/vp/build.sh > $S/log 2>&1 || { tail -20 $S/log; echo "BUILD FAILS"; exit 1; }
bash /opt/vp/test.sh $S/o.json | tail -1 | grep -q "33 passed, 0 failed" || { echo "TESTS FAIL"; exit 1; }
bash "$D/demo.sh" && { echo "DEMO PASSES WITH PATCH"; exit 1; }
cd /verif; python3 run.py $prop --tier quick 2>&1 | grep -E "VIOLATION|executions" | head -3
