import subprocess
ids="""0829ba7 C03
25cd737 C04
dbdae54 C04
9601134 C04
75be85e C04
db6ebfd C04
3654950 C01
b76f491 C01
6b344d7 C02
502ddf1 C01
62fb765 C01
bc68d08 C01
2aea998 C09
1e84c7c C09
563455a C09
8e88dec C09
355eab5 C03
a86e45c C05
22bed2f C01
96d9536 C01
f84fa43 C01
24e8ddd C01
b5c0896 C15
5831910 C15
2458231 C15
3fe9ac9 C15
565b962 C19
0e11691 C16
3bf71bc C18
0673150 C18
e52ce64 C02
f4822a2 C32
ed03cd0 C14
354c6b4 C14
11c6d70 C13
41c63ea C14
968b4aa C13
b6e893f C06
30c8efa C06
2a6a22c C13
eabbf1d C10
7960940 C06
ae5070b C31
28d57b2 C08
7bb8b18 C06
72ca4e6 C12
eb6bb09 C11
d4789f2 C11
cc9a635 C11
09277d0 C10
3186935 C10
e1c59f2 C09
fa2f72e C34
10fa48f C34
62f5e81 C20
576cdca C20
c33cf6a C19
5a410b3 C21
93613f3 C21
f632e84 C01
16235c7 C30
c625791 C26
374cea5 C16
d25d22e C27
497dfec C22
f17c1fd C23
30d1523 C23
ea0aeef C23
2fb873d C01
91a6ce0 C43
1c21170 C43
f7a1c37 C25
8ee8ca4 C13
9f1c406 C15
01ba33c C21
127f764 C41
a3d6a2a C41
2463345 C41
b44632b C10
67d5844 C06
c9d9d55 C06
1de36de C03
c8237ab C10
5fd6c33 C15
6edbc88 C03
4e12786 C08
6fd2a09 C37
759dfe9 C09
5829a96 C36
e56fa34 C01
3bc3aee C01
e893553 C37
58cc69e C36
9a6394d C36
bd084d4 C01
7b4b0fa C17
f15f990 C35
69490b0 C35
1b8097f C35
a85eb25 C34
360deb7 C34
44efff8 C34
e704388 C34
2aa9a66 C32
caef8c9 C31
a806ff8 C28
e616dfe C28
a00f59d C27
9fea3da C27
2e30f9b C09
6432ab9 C27
20a12d9 C25
bea69d5 C25
447deb0 C24
3252f87 C02
853d15b C23
14e036f C23
202bdb6 C23
15206a7 C22
df9be46 C22
307759d C22
eb25a6d C22
c2a3eb1 C22
b0aeb97 C21
5cd147a C20
c2391b7 C19
ea7e1bf C18
6c315c1 C15
4ff4797 C14
6d966b6 C12
2390ca5 C11
28cb6af C10
cd62318 C10
35bb0fa C09
3962ba8 C06
7721c24 C05"""
m=dict(l.split() for l in ids.split('\n'))
out=["# Findings.  'fixed:' lines record defects repaired by 'fix:' commits in /repo;",
"# they suppress nothing.  'known:' lines (known: property=<id> sig=<sig> <what>)",
"# are defects recorded and not repaired: the check prints KNOWN-FINDING for each",
"# and still reports any violation with another signature."]
log=subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h %s'],text=True).splitlines()[1:]
for l in log:
    h,s=l.split(' ',1)
    assert s.startswith('fix: ')
    p=m.get(h)
    if not p: print('no prop',l); continue
    out.append(f"fixed: property={p} {h} {s[5:]}")
open('/verif/known-findings.txt','w').write('\n'.join(out)+'\n')
