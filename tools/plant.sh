#!/bin/bash
# plant.sh ID PROPERTY NEEDS BREAKS: keep the change made in the scratch copy
# /tmp/bug/repo with the demonstration /tmp/bug/demo_test.go (package
# $PKG, default .) as /verif/seeded/ID after confirming it.
id=$1 prop=$2 needs=$3 breaks=$4 pkg=${PKG:-.}
out=/verif/seeded/$id
mkdir -p "$out"
git -C /tmp/bug/repo diff > "$out/patch.diff"
[ -s "$out/patch.diff" ] || { echo "no change"; exit 1; }
cp /tmp/bug/demo_test.go "$out/demo_test.go"
cat > "$out/demo.sh" <<D
#!/bin/bash
# Exit 0 when the behaviour is right. Run with cwd /repo.
d="\$(cd "\$(dirname "\$0")" && pwd)"
r="\$PWD"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
cd "\$r"
t=\$(mktemp -d)
trap 'rm -rf "\$t"' EXIT
printf '{"Replace":{"%s/$pkg/zz_demo_test.go":"%s/demo_test.go"}}' "\$r" "\$d" > "\$t/o.json"
timeout 250 go test -overlay "\$t/o.json" -vet=off -count=1 ${FLAGS:-} -timeout 200s -run '^TestDemo\$' ./$pkg
D
python3 - "$id" "$prop" "$needs" "$breaks" <<'P'
import json,sys
i,p,n,b=sys.argv[1:]
json.dump({"property":p,"needs":n,"what_it_breaks":b},open(f'/verif/seeded/{i}/meta.json','w'),indent=1)
P
git -C /repo apply --check "$out/patch.diff" || exit 1
(cd /repo && bash "$out/demo.sh" > /tmp/bug/clean.log 2>&1) || { echo "demo fails on the clean tree"; tail -20 /tmp/bug/clean.log; exit 1; }
git -C /repo apply "$out/patch.diff"
trap 'git -C /repo checkout -- .' EXIT
bash /opt/vp/build.sh > /tmp/bug/build.log 2>&1 || { echo "does not build"; tail /tmp/bug/build.log; exit 1; }
bash /opt/vp/test.sh /tmp/bug/t.json 2>&1 | tee /tmp/bug/test.log | grep -q "27 passed" || { echo "tests fail"; tail -3 /tmp/bug/test.log; exit 1; }
(cd /repo && bash "$out/demo.sh" > /tmp/bug/bad.log 2>&1) && { echo "demo passes on the changed tree"; exit 1; }
echo "== demo:"; grep -v "^FAIL\|^---" /tmp/bug/bad.log | head -5 | cut -c1-200
echo "== check:"
cd /verif && ./check "$prop" 2>/dev/null | cut -c1-300 | head -4; exit 0
