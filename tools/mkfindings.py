"""Writes the fixed: lines of KNOWN_FINDINGS.txt from the fix commits of /repo (developer aid, not run by any check)."""
import subprocess
MAP = """a4902e1 C10
ae2754f C03
fb3b60c C02
7ecba4a C14
35c5ded C24
88cb75d C14
a3d7479 C14
9184b52 C22
6ad4094 C19
54e99ff C19
4d78d2c C03
a3f75c1 C19
0214595 C13
fa86485 C04
3703e2d C13
fa682bf C19
5cfa7a2 C22
9f47f52 C13
425b2f5 C06
114b2ff C20
df8723f C09
0fd400f C12
f3f165a C12
5186e03 C04
f08f2a9 C07
201e635 C12
feb55f6 C21
bd3f60d C13
aa0f5b0 C03
3b65a75 C22
15cbc24 C07
0252e2e C13
d6257a4 C25
548b2e9 C01
20b56ff C04
3135983 C04
c14cb9a C07
d42fc97 C11
7ce91a2 C20
bcd6227 C10
5cfe75e C05
9df0fdd C05
6257e08 C06
34566bf C06
eb838ad C07
a0e9206 C26
fb3e879 C08
c7d8208 C09
88ceea0 C10
014b895 C11
4176953 C12
d77e9b5 C13
fcb79b4 C14
ebbc4be C15
a2dc619 C26
a15f323 C16
5cff98e C18
13111a9 C19
e144e82 C20
315f251 C21
ae61e00 C22
28dac18 C24
fc56b35 C25
ea0be69 C26
ba6f43c C18
b037133 C21
916a256 C24
600de6a C16
3a489d9 C25
523e81f C25
0ffd8f5 C16
2d0c254 C28
efef816 C28
19c6f0b C28
1c3251f C28
7d16fc8 C28
1291f25 C24
b1badc2 C11
28bbba6 C25
1311aaa C25
9e8fdd5 C23
193ecd3 C22
2e866d0 C06
59290a9 C04
4048eb9 C29
b27d7ef C29
b9c775a C29
4ef927f C30
8260d37 C30
c8527e1 C21
c35148e C30
c95712b C24
5e22d4c C29
8e5d776 C27
312b83b C12
70b8aa9 C22
50d3f46 C08
3df1183 C18
60dd743 C05
c4bca19 C11
d3c032d C05
51e9136 C19
0d14897 C14"""
m = dict(x.split() for x in MAP.splitlines())
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], stdout=subprocess.PIPE, text=True).stdout
out = ["# Defects of scikit-hep/awkward-array that the checks found. `fixed:` lines suppress nothing; `finding:` lines (none at present) name a reproducer in pbt/findings.py."]
for l in log.splitlines():
    h, s = l.split(" ", 1)
    if s.startswith("fix: "):
        out.append("fixed: property=%s %s %s" % (m.get(h, "C02"), h, s[5:]))
        if h not in m:
            print("unmapped", h, s)
open("/verif/KNOWN_FINDINGS.txt", "w").write("\n".join(out) + "\n")
