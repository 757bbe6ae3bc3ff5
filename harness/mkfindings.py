#!/usr/bin/env python3
"""Writes the 'fixed:' lines of KNOWN_FINDINGS.txt from the fix: commits in /repo.  Run by hand after a fix, not by the checks."""
import os, re, subprocess
P = dict(l.split() for l in """1608cc4 C13,59a2067 C15,32a7c42 C01,4e61a2e C01,ce31203 C20,4b81686 C16,b2621da C16,315b485 C16,386ee3e C16,242a139 C17,f8602bb C17,1d016fc C17,886cb87 C08,4b7881a C08,f82d91c C12,62e4c89 C12,301d3f6 C11,9751baa C12,19186c1 C11,92d31ee C13,ce676e5 C13,90e58a9 C14,2e9ba64 C14,a88b040 C14,a306da9 C19,52e6d77 C08,03da7db C09,40b87d4 C21,002b895 C14,fb3f13a C14,b5e4cd5 C11,3e15b2d C13,fc78f54 C13,fea5a61 C13,f345202 C13,6e0310f C13,50c49d9 C13,67e3056 C13,2e6f576 C17,baa024f C18,d643a2e C18,878fc5a C18,514a0f3 C04,3ee65b1 C10,7e7e6e5 C10,9f6d4e6 C22,34ffbeb C17,c2bac7c C23,75ddccd C23,5e06138 C23,9c4894d C17,2bb85f5 C17,d63bd10 C19,a26c8ba C02""".split(","))
fn = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "KNOWN_FINDINGS.txt")
keep = [l for l in open(fn) if l.startswith("finding:")]
out = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h%x00%s%x00%b%x01"], capture_output=True, text=True).stdout
for r in out.split("\x01"):
    f = r.strip("\n").split("\0")
    if len(f) == 3 and f[1].startswith("fix: "):
        keep.append("fixed: property=%s %s %s%s\n" % (P[f[0]], f[0], f[1][5:], (": " + re.sub(r"\s+", " ", f[2]).strip()) if f[2].strip() else ""))
open(fn, "w").writelines(keep)
