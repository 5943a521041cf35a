"""regenerates known_findings.txt: one 'fixed:' line per fix commit of /repo and property it concerns"""
import subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = """c487819 C19;b5c716a C13 C22;87b415e C22;1ea86e3 C05;6e5b739 C20 C23;b692690 C20;f93d37f C16;0574e5f C17;47ba8a6 C02 C03;5d945c4 C02;478e7a2 C03 C26;3dc6e4d C03;16669bc C04;99be02e C03;f1e0cef C05;f5904cd C05;cb06b7d C06 C18;c432384 C05;8484d1c C06;09f1bd5 C07;014740d C08;f02b9f6 C09 C18 C26;43295b0 C11;26cf6c0 C12;8fba814 C12 C23;e6c5f10 C13;c3a05c0 C14;46a3b4a C15 C23;4f95805 C15 C16;767aeea C15 C26;9fa9c82 C16;3ad50d7 C16 C28;fdbc149 C16 C24;9118536 C17;257abc2 C18 C23;90d794e C18 C23;5cddbbc C18;2f26be9 C20;8e6720b C20;119165a C20;c3204a1 C20;282ead1 C20 C23;3238c0a C20 C23 C24 C28;e764bff C18;37a4657 C17 C23;5784197 C17;d78359d C28;95871d3 C17;994e779 C18 C22;3f448e0 C22 C23 C24 C28;ee16568 C22;ce886a8 C22 C23;deb6e12 C22;7ff8b50 C25;850a216 C23 C24;a7199ca C28"""
log = dict(l.split(" ", 1) for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s", "--abbrev=7"], capture_output=True, text=True).stdout.splitlines())
o = ["# Findings on the tree as first seen. A 'fixed:' entry suppresses nothing; there are no unrepaired ('known:') findings."]
for e in MAP.split(";"):
    h, *ps = e.split()
    for p in ps: o.append("fixed: property=%s %s %s" % (p, h, log[h].replace("fix: ", "", 1)))
missing = [h for h, s in log.items() if s.startswith("fix:") and h not in MAP]
assert not missing, missing
open(V + "/known_findings.txt", "w").write("\n".join(o) + "\n")
