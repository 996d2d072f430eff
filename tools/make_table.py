import json,glob,os
rows=[]
missed={"s07":"repeated appends of one obstacle","s11":"cut-offs and radii together","s13":"turning obstacles in 3D",
"s14":"fade factors","s16":"powers of the projection","s17":"lines opposite of obstacles (this family found the defect d559cc7)",
"s19":"few samples","s25":"all possible trees as a model","s26":"replaced obstacles","s29":"four dimensions","s34":"plane of the turn",
"s36":"speed while slowing down","s35":"sharp turns","s37":"rings of regions"}
out=["## Planted bugs","","Each is caught by the check of its property (`-`: at once; otherwise: missed at first, and caught since",
"the check got what is named). Each has a demonstration in `seeded/<id>/`.","","| bug | property | needs | strengthened by |","|---|---|---|---|"]
for d in sorted(glob.glob('/verif/seeded/*/')):
    m=json.load(open(d+'meta.json')); n=os.path.basename(d[:-1])
    out.append(f"| {n} | {m['property']} | {m['needs']} | {missed.get(n[:3],'-')} |")
out+=["","Besides, about 250 small changes were made by hand to the code behind C14–C27 (wrong operators, indices,",
"frames, dropped resets, swapped arguments), and several hundred by random mutation (`tools/mutate.py`).",
"Those which survived were either equivalent, outside of what is claimed, or led to new families: sharp",
"turns and few samples (C17), sequences and overlapping obstacles around (C15), the fall-back of the trees",
"(C11), factors of one side (C14), the desired radius (C19), replaced parts, local frames and the robot",
"(C25), a reference model of the mean normal and the hidden weights (C26), routes (C27).",""]
s=open('/verif/DESIGN.md').read()
if "## Planted bugs" in s:
    a=s.index("## Planted bugs"); b=s.index("## Behaviour that is not claimed"); s=s[:a]+s[b:]
i=s.index("## Behaviour that is not claimed")
open('/verif/DESIGN.md','w').write(s[:i]+"\n".join(out)+"\n"+s[i:])
