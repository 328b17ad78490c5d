#!/bin/bash
# seedcheck.sh <id> [test]: validates a planted bug in a scratch copy: applies, touches original lines only, builds, (test) passes the stable tests, demo 0 without and non-zero with it
id=$1; S=/tmp/seedrepo; D=/verif/seeded/$id
[ -d $S ] || cp -a /repo $S
cd $S && git checkout -q -- . && git fetch -q /repo HEAD 2>/dev/null && git checkout -q FETCH_HEAD 2>/dev/null
git apply --check $D/patch.diff || { echo "does not apply"; exit 1; }
# blame of removed / context-adjacent lines
python3 - $D/patch.diff <<'P'
import re,subprocess,sys
f=None
for l in open(sys.argv[1]):
    if l.startswith('--- a/'): f=l[6:].strip()
    m=re.match(r'@@ -(\d+)(?:,(\d+))? ',l)
    if m: n=int(m.group(1)); continue
    if l.startswith('-') and not l.startswith('---'):
        b=subprocess.run(['git','blame','-s','-L',f'{n},{n}',f],capture_output=True,text=True).stdout
        if not b.startswith('^1846d28'): print('NOT ORIGINAL:',b.strip())
        n+=1
    elif l.startswith(' '): n+=1
P
run() { (cd $S && timeout 300 bash $D/demo.sh >/tmp/demo.$1.log 2>&1); echo "demo $1: $?"; }
run clean; tail -3 /tmp/demo.clean.log
git apply $D/patch.diff
run patched; tail -3 /tmp/demo.patched.log
if [ "$2" = test ]; then
  # the stable tests, on the patched tree, through /repo (the scripts name it)
  cd /repo && git apply $D/patch.diff && bash /verif/tools/stable.sh 2>&1 | tail -2; git -C /repo checkout -q -- .
fi
cd $S && git checkout -q -- .
