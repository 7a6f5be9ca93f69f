"""Adds the "fixed:" records of /repo's fix commits to known_findings.json (open findings are kept as they are)."""
import json, os, subprocess
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
PROP = """67e52ae C02;348f01e C07;1bf7be4 C07;89c01a4 C09;6c004a0 C07;0e88a14 C08;1e27d46 C09;0aaff44 C09;fa3e881 C10;16648fa C10
f5f2a90 C10;98e26ad C32;b0f9246 C30;70ad0fe C04;30db701 C05;e3c84e4 C05;37de90d C05;2b62c05 C06;85a4e61 C06;2969e7b C06;5fd52d2 C32
2edff8a C32;30ff27b C15;6c0e5b3 C15;b2aa92c C14;2b72609 C14;2cd0ad6 C14;947444b C15;c6a510b C16;df32072 C17;844dfda C17;e212319 C17
6e80a4d C17;efb9bfa C18;e464fe0 C17;a947fa9 C16;af91ce6 C28;61466a4 C22;b1b4ff5 C24;2c4b0b9 C24;c65835e C22;f54638b C30;b3a0b98 C20
cc76179 C11;763318f C21;41e7314 C21;53a3b01 C05;68066d6 C27;088b3e5 C10;8245028 C26;953a991 C25;2157a29 C23;aa9a17a C28;83b15f6 C28
d695130 C17;1d8c857 C22;1ea85ec C24;d92a36a C26;b6c225a C27;da791af C28;3f6b6f3 C28;d21323b C28;54d9db5 C28;da5d735 C31;5f7f0ff C14;da35c03 C20"""
prop = dict(e.split() for l in PROP.splitlines() for e in l.split(";"))
f = os.path.join(here, "known_findings.json")
old = [e for e in json.load(open(f)) if e["status"] == "open"]
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
new = []
for line in log.splitlines():
    h, s = line.split(" ", 1)
    if s.startswith("fix: "):
        what = s[5:]
        new.append(dict(property=prop[h[:7]], key=h[:7], status="fixed", commit=h[:7], what=what,
                        entry=f"fixed: property={prop[h[:7]]} {h[:7]} {what}"))
json.dump(old + new, open(f, "w"), indent=1)
open(f, "a").write("\n")
print(len(old), "open", len(new), "fixed")
