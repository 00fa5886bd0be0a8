#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json
T={
'codec':"symbolic execution of the codec's SSA with SMT (z3): arbitrary datagrams / packet values, assertion queries per path",
'code':"symbolic execution of the accessors' SSA with SMT (z3) over every byte/word value",
'conf':"symbolic execution of the conversions' SSA with SMT (z3) over arbitrary configurations and replies",
'node':"symbolic execution of the whole Node (goroutines, channels, fake UDP) with SMT (z3): arbitrary datagrams and fault sequences",
'sched':"symbolic execution of the real code (Node, Controller, codec) with symbolic schedule variables (delay-bounded) and SMT (z3), happens-before race detection",
'ctrl':"symbolic execution of the whole Controller on a virtual clock with SMT (z3): arbitrary replies, frames, instants",
}
G={**{f'C{i:02d}':'codec' for i in range(1,11)},**{f'C{i:02d}':'code' for i in (11,12,13)},**{f'C{i:02d}':'conf' for i in (14,15)},
   **{f'C{i:02d}':'node' for i in (16,17,18,19)},**{f'C{i:02d}':'sched' for i in (20,27,29,30,31,32)},**{f'C{i:02d}':'ctrl' for i in (21,22,23,24,25,26,28)}}
N={'codec':"Bounded: datagram lengths and number of packets as in the evidence's bounds; all byte/field values inside them are covered by solver verdicts.",
'code':"All values of the code types; sequences of at most a few setters.",
'conf':"Bounded text lengths and port counts; all byte/field values inside them are covered by solver verdicts.",
'node':"Bounded number and size of datagrams and faults per history; one deterministic schedule unless stated (interleavings are the subject of C20, C27, C29..C32).",
'sched':"Bounded number of preemptions/delays and of contested selects; bounded traffic.",
'ctrl':"Bounded number of nodes, outputs, replies and steps; instants symbolic or from a table as stated in the bounds."}
checks=[]
for l in open('properties.jsonl'):
    i=json.loads(l)['id']
    g=G.get(i)
    if not g: continue
    checks.append(dict(property=i,quick_cmd=f'./check.sh {i} quick',thorough_cmd=f'./check.sh {i} thorough',evidence_file=f'evidence/{i}.json',
      technique=T[g],level='model_checking',level_note=N[g]+" Counterexamples are replayed on the compiled code."))
json.dump(dict(version=1,setup_cmd='./check.sh --build',
  hooks=dict(guard='none needed: harnesses and a fake network are laid over the build with go build overlays (build tag verifnative, in /verif only)',enable='check.sh passes the overlay; /repo is not changed',source_commits=[]),
  checks=checks,not_applicable=[]),open('MANIFEST.json','w'),indent=1)
