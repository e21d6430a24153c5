#!/usr/bin/env python3
"""Writes DESIGN.md from DESIGN.head.md and the list of planted changes."""
import json,glob,os
root=os.path.dirname(os.path.abspath(__file__))
first={
"zero-checksum-accepted":"damage that makes a checksum zero",
"thirty-two-terminals":"crowds",
"slow-save-is-success":"storages that take minutes",
"gen-in-progress-is-success":"answers with status 1",
"connection-renewed":"long sessions",
"timed-out-save-repeated":"storages that take minutes, kinds of errors",
"eof-is-no-failure":"kinds of errors",
"answer-waits-for-the-next":"promptness in C04",
"sixteen-saves-at-a-time":"crowds of slow storages",
"pg-refusal-keeps-connection":"refusals as the server reports them",
"ttl-at-most-an-hour":"lifetimes up to days",
"empty-host-is-loopback":"all addresses of the receiver",
"redis-in-parts":"big packets in whole runs",
}
extra=os.path.join(root,"missed.json")
if os.path.exists(extra): first.update(json.load(open(extra)))
s=open(os.path.join(root,"DESIGN.head.md")).read().rstrip()+"\n\n| change | check | needs | missed at first, then |\n|---|---|---|---|\n"
rows=[]
for d in sorted(glob.glob(os.path.join(root,"seeded","*"))):
    m=json.load(open(os.path.join(d,"meta.json"))); i=os.path.basename(d)
    rows.append((m["property"],i,m["needs"]))
for p,i,n in sorted(rows):
    s+="| %s | %s | %s | %s |\n"%(i,p,n.replace("|","/"),first.get(i,""))
open(os.path.join(root,"DESIGN.md"),"w").write(s)
