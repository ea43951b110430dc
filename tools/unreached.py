#!/usr/bin/env python3
"""Source lines of /repo that the guided passes of the given checks never reach: unreached.py DIR (edges-*.hex, from VP_EDGES=1)."""
import collections, glob, subprocess, sys
vp = '/verif/target/guided/x86_64-unknown-linux-gnu/debug/vp'
pcs = subprocess.run([vp, 'edges'], capture_output=True, text=True).stdout.split()
hit = [0] * len(pcs)
for f in glob.glob(sys.argv[1] + '/edges-*.hex'):
    b = bytes.fromhex(open(f).read())
    for i, x in enumerate(b):
        hit[i] |= x
import shutil, os
sym = shutil.which('llvm-symbolizer') or shutil.which('llvm-symbolizer-18')
out = subprocess.run([sym, '--obj=' + vp, '--no-inlines', '-s'], input='\n'.join(pcs), capture_output=True, text=True).stdout.split('\n\n')
fn, miss = collections.Counter(), collections.defaultdict(set)
lines_hit = set()
for h, o in zip(hit, out):
    l = o.strip().split('\n')
    if len(l) < 2: continue
    where = ':'.join(l[1].split(':')[:2])
    if h: lines_hit.add(where)
    else: miss[where].add(l[0])
print(sum(hit), 'of', len(hit))
for w in sorted(miss):
    if w not in lines_hit: print(w, sorted(miss[w])[0][:110])
