#!/bin/bash
# plant.sh ID PROP [PROP...]: /repo's working tree carries a planted bug and seeded/ID/demo.{sh,py} exist.
# Saves the diff, confirms tests pass, demo fails with it and passes without, runs the checks with it, undoes it.
ID=$1; shift
D=/verif/seeded/$ID
mkdir -p "$D"
git -C /repo diff > "$D/patch.diff"
[ -s "$D/patch.diff" ] || { echo "no change"; exit 1; }
[ -f "$D/demo.sh" ] || cat > "$D/demo.sh" <<'X'
#!/bin/bash
export PYTHONPATH=/repo/_build/lib:/repo PYTHONDONTWRITEBYTECODE=1
exec timeout 250 /opt/vp/venv/bin/python "$(dirname "$0")/demo.py"
X
chmod +x "$D/demo.sh"
echo "tests: $(bash /opt/vp/test.sh /tmp/o.json 2>&1 | grep -E 'passed,|error' | tail -3)"
(cd /repo; bash "$D/demo.sh" > /tmp/demo.out 2>&1; echo "demo with: $?"; tail -2 /tmp/demo.out)
for p in "$@"; do
  s=$(date +%s); python3 /verif/sim/check.py $p > /tmp/chk.out 2>&1; rc=$?
  echo "check $p: rc=$rc in $(( $(date +%s) - s )) s; $(grep -h VIOLATION /tmp/chk.out | head -2)"
done
git -C /repo checkout -q -- .
bash /opt/vp/build.sh > /dev/null 2>&1
(cd /repo; bash "$D/demo.sh" > /tmp/demo.out 2>&1; echo "demo without: $?"; tail -2 /tmp/demo.out)
git -C /verif checkout -q -- replays 2>/dev/null
