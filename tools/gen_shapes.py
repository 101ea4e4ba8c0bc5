#!/usr/bin/env python3
"""Writes harness/src/shapes_table.rs: the query shapes the generators choose from."""
T="ABCDEFG"
GP=["AB","BA","AC","CD","DE","BE","EF","FA","DC","CF","BD","EC","GA","CG"]
out=[]
def add(s):
    if s not in out: out.append(s)
for t in T:
    add(f"&{t}"); add(f"&mut {t}")
M=[("&","&"),("&mut ","&"),("&","&mut "),("&mut ","&mut ")]
k=0
for a in T:
    for b in T:
        if a==b or "G" in a+b and a+b not in GP+["AG","GE","BG","GF"]:
            continue
        if a+b in GP: ms=M
        else:
            ms=[M[0],M[1+k%3]]; k+=1
        for m in ms: add(f"({m[0]}{a},{m[1]}{b})")
for t in "ABCFG": add(f"(&{t},&{t})")
# 3
tri=["ABC","CBA","BCD","DEF","FED","AEC","CFB","FAD","EBD","DCA","GAC","BGD"]
mm=[("&","&","&"),("&mut ","&","&"),("&","&mut ","&"),("&","&","&mut "),("&mut ","&mut ","&mut ")]
for i,t in enumerate(tri):
    for m in (mm[0],mm[1+i%4]):
        add("("+",".join(x+y for x,y in zip(m,t))+")")
add("(&A,&A,&B)")
for t in ["ABCD","DCBA","CDEF","FEBA","BDFA","EACF","GCEA"]:
    add("("+",".join("&"+y for y in t)+")")
add("(&mut A,&B,&mut C,&D)"); add("(&B,&mut D,&F,&mut A)"); add("(&mut F,&mut E,&mut B,&mut A)"); add("(&A,&B,&C,&mut E)")
for t in ["ABCDE","EDCBA","BCDEF","FADBC","CEFBA","BGDCA"]:
    add("("+",".join("&"+y for y in t)+")")
add("(&mut A,&B,&mut C,&D,&E)"); add("(&mut F,&mut E,&mut D,&mut C,&mut B)"); add("(&B,&A,&mut D,&F,&mut C)"); add("(&A,&B,&C,&D,&mut E)")
# nested
for s in ["((&A,&B),&C)","(&A,(&B,&C))","((&A,&B),(&C,&D))","(&A,((&B,&C),&D))","((&mut A,&B),(&mut D,&E),&F)",
          "(&C,(&A,&B,&D))","((&A,&B,&C),&D,(&E,&F))","(((&A,&B),&C),&D)","((&mut B,&F),(&A,&mut C))","(&D,&C,(&B,&A),&F)",
          "(&A,&B,&C,&D,(&E,&F))","((&A,&B),&A)"]: add(s)
# groups
G={"FullOwning":[], "PartialOwning":[], "NonOwning":[]}
for g in G:
    for p in GP:
        for m in M: add(f"{g}<{m[0]}{p[0]},{m[1]}{p[1]}>")
# groups inside tuples
for s in ["(FullOwning<&A,&B>,&C)","(&C,FullOwning<&A,&B>)","(PartialOwning<&A,&B>,&D)","(NonOwning<&A,&B>,&E)","(&F,NonOwning<&C,&D>)",
          "(NonOwning<&A,&mut B>,&mut C)","(FullOwning<&mut C,&mut D>,&A)","(&mut A,NonOwning<&D,&E>)","(PartialOwning<&mut E,&F>,&mut A)",
          "(NonOwning<&A,&C>,NonOwning<&D,&E>)","(FullOwning<&A,&B>,FullOwning<&C,&D>)","(FullOwning<&A,&B>,&C,&D)","(&A,&B,FullOwning<&D,&C>)",
          "(&E,(PartialOwning<&D,&C>,&A))","(NonOwning<&B,&D>,&A,&C,&F)","(&G,FullOwning<&A,&B>)","(PartialOwning<&G,&A>,&B)"]: add(s)
# exclusions
W=[]
pairs=["AB","BA","AC","CA","BC","DE","EF","FA","CD","DB","EA","CF","AG","GB","GC"]
for p in pairs:
    a,b=p
    W+= [f"(&{a},Without<&{b}>)", f"(Without<&{b}>,&{a})"]
W+=["(&mut A,Without<&B>)","(Without<&B>,&mut A)","(&A,Without<&mut B>)","(Without<&mut C>,&D)","(&mut E,Without<&mut F>)","(Without<&mut D>,&mut B)",
 "(&mut C,Without<&A>)","(&mut F,Without<&D>)",
 "(&A,Without<&A>)","(Without<&B>,&B)",
 "((&A,&B),Without<&C>)","(Without<&C>,(&A,&B))","((&mut A,&B),Without<&D>)","(Without<&F>,(&C,&mut D))","((&A,&B,&C),Without<&D>)","(Without<&E>,(&A,&B,&C,&D))",
 "(&A,Without<(&B,&C)>)","(Without<(&B,&C)>,&A)","(&D,Without<(&A,&B,&C)>)","(Without<(&C,&D)>,&mut A)","((&A,&B),Without<(&C,&D)>)","(Without<(&E,&F)>,(&A,&B))",
 "(&A,Without<(&A,&B)>)","(Without<(&B,&A)>,&A)",
 "(&A,Without<(&B,Without<&C>)>)","(Without<(Without<&C>,&B)>,&A)","(&A,Without<(Without<&B>,&A)>)","(Without<(&D,Without<(&E,Without<&F>)>)>,&A)",
 "((&A,Without<&B>),&C)","(&C,(&A,Without<&B>))","((&A,Without<&B>),Without<&C>)","(Without<&C>,(Without<&B>,&A))","((&A,Without<&B>),(&C,Without<&D>))",
 "((&A,Without<&B>),&C,(Without<&D>,&E))","(&A,(&B,Without<&C>),&D)","(&mut B,(Without<&A>,&mut D))","((Without<&A>,&mut B),Without<(&C,&D)>)",
 "(Without<((&A,&B),Without<&C>)>,&D)","(&F,Without<((&A,Without<&B>),&C)>)",
 "(FullOwning<&A,&B>,Without<&C>)","(Without<&C>,FullOwning<&A,&B>)","(&C,Without<FullOwning<&A,&B>>)","(Without<FullOwning<&A,&B>>,&A)","(PartialOwning<&A,&B>,Without<&D>)",
 "(Without<PartialOwning<&A,&B>>,&C)","(NonOwning<&A,&B>,Without<&C>)","(&D,Without<NonOwning<&A,&B>>)","(NonOwning<&mut C,&D>,Without<&A>)","(Without<NonOwning<&D,&E>>,&mut A)",
 "(&A,Without<NonOwning<&A,&B>>)","(&B,Without<PartialOwning<&A,&B>>)","(&A,Without<(&B,&G)>)","((&A,Without<&G>),&C)","(&D,Without<NonOwning<&C,&G>>)"]
for s in W: add(s)
# same type twice in a non-owning group
for s in ["NonOwning<&A,&A>","NonOwning<&B,&B>","NonOwning<&G,&G>"]: add(s)
import os
p=os.path.join(os.path.dirname(__file__),"../harness/src/shapes_table.rs")
L=["// Generated by tools/gen_shapes.py","shapes! {"]
L+=[f"    {s};" for s in out]
L+=["}",""]
gp=["pub const GROUP_PAIRS: [(usize, usize); %d] = ["%len(GP)+", ".join("(%d, %d)"%(T.index(p[0]),T.index(p[1])) for p in GP)+"];",""]
new="\n".join(L+gp)
if not os.path.exists(p) or open(p).read()!=new: open(p,"w").write(new)
print(len(out))
