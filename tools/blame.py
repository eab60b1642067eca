#!/usr/bin/env python3
"""For each planted change: which of the lines it removes are original, which came with later commits."""
import subprocess, os, re
S='/verif/seeded'
for i in sorted(os.listdir(S)):
    f=None; n={'orig':0,'later':0,'added':0}; bl={}
    for l in open(f'{S}/{i}/patch.diff'):
        if l.startswith('--- a/'):
            f=l[6:].strip(); bl[f]=subprocess.run(['git','-C','/repo','blame','-s',f],capture_output=True,text=True).stdout.splitlines()
        elif l.startswith('@@'): ln=int(re.match(r'@@ -(\d+)',l)[1])
        elif l.startswith('+++') or l.startswith('diff') or l.startswith('index'): pass
        elif l.startswith('-'): n['orig' if bl[f][ln-1].startswith('^0a7f542') else 'later']+=1; ln+=1
        elif l.startswith('+'): n['added']+=1
        else: ln+=1
    print(i,n)
