"""Writes known-findings.txt: the repairs ('fixed:', suppress nothing) and the recorded defects ('known:', tools/known.txt)."""
import os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = {"4a5c44a": "C05 C06 C07", "4a76f8d": "C05", "5c0833f": "C05", "d62b269": "C05 C07", "46764c3": "C09 C11", "28251ea": "C09", "1f8037c": "C16", "5ccd6bb": "C26", "68978a7": "C13", "bb8d5f6": "C02 C05",
         "7fab3f1": "C22", "0de35fc": "C10", "7625dd1": "C05 C09", "21d234f": "C07", "aaa3071": "C18", "f5171a1": "C27", "c234672": "C29", "75f11d2": "C27 C08", "74ec060": "C27 C17", "ea11965": "C27", "e9fc5e7": "C22",
         "096435c": "C04 C07", "b20dfc8": "C08", "2d2353f": "C07", "586dcbd": "C22 C13", "3aeaee1": "C22 C07", "955a924": "C15", "22a622c": "C22", "bae1a39": "C16", "21ba841": "C16", "e060389": "C16", "b22cbb8": "C03",
         "46f14c2": "C03", "6833dd1": "C07 C05", "d05f591": "C17", "7de3ea4": "C27", "bacd96e": "C27"}
PROPS.update(dict(l.split(" ", 1) for l in open(os.path.join(V, "tools", "fixes.txt")).read().split("\n") if l.strip()) if os.path.exists(os.path.join(V, "tools", "fixes.txt")) else {})
out = ["# known: recorded, unrepaired defects; fixed: repaired defects (these suppress nothing)"]
k = os.path.join(V, "tools", "known.txt")
if os.path.exists(k):
    out += open(k).read().strip().split("\n")
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).strip().split("\n")
for l in log:
    h, s = l.split(" ", 1)
    if s.startswith("fix: "):
        for p in PROPS[h].split():
            out.append("fixed: property=%s %s %s" % (p, h, s[5:]))
open(os.path.join(V, "known-findings.txt"), "w").write("\n".join(out) + "\n")
print(len(out))
