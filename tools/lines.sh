#!/bin/bash
# lines.sh REPO PATCH: every file of the patch removes or is next to at least one line of the original commit
cd "$1" && python3 - "$2" <<'P'
import re,subprocess,sys
f=None; ok=True; n=0
for l in open(sys.argv[1]):
    if l.startswith('--- a/'): f=l[6:].strip(); bl=subprocess.run(['git','blame','-s','HEAD','--',f],capture_output=True,text=True).stdout.splitlines()
    m=re.match(r'@@ -(\d+)',l)
    if m: ln=int(m.group(1)); continue
    if l.startswith('-') and not l.startswith('---'):
        n+=1
        if not bl[ln-1].startswith('^cb7ed75'): ok=False; print('   mine:',l.rstrip())
        ln+=1
    elif l.startswith(' '): ln+=1
if n==0: print('   only adds lines')
sys.exit(0 if ok else 1)
P
