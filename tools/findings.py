#!/usr/bin/env python3
"""Writes known_findings.json from the fix commits in /repo (run by hand, never by a check)."""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPERTY = {
    "pad the spatial axes": "C16", "compute pooling padding": "C11", "take the dilation": "C06",
    "raise the intended padding": "C14", "determine the equivariant padding": "C18",
    "pad transposed 'same_equiv'": "C09", "let the padding follow": "C24", "don't mix zero padding": "C12",
    "compute the output shape": "C17", "restore layer attributes": "C20", "accept subgroup=None": "C07",
    "add the missing subgroup P2": "C05", "use all of the spatial_axes": "C03", "support negative axes": "C03",
    "handle a mix of positive": "C28", "use zeros outside": "C10", "accept upper case": "C14",
    "default to the data_format": "C16", "keep the channel groups": "C06", "don't silently spoil": "C15",
    "reject inputs to group pooling": "C26", "make the configuration": "C23", "don't scramble": "C10",
    "let layers be called after": "C23", "reject signals on another": "C26", "raise an error when acting": "C26",
    "reject subgroups that": "C26", "reject layer inputs that are not on the group without": "C26",
    "describe the composition table": "C30",
}
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True)
fixed = []
for line in log.splitlines():
    h, msg = line.split(" ", 1)
    if not msg.startswith("fix: "):
        continue
    msg = msg[5:]
    (prop,) = [v for k, v in PROPERTY.items() if msg.startswith(k)]
    fixed.append(f"fixed: property={prop} {h} {msg}")
with open(os.path.join(HERE, "known_findings.json"), "w") as fh:
    json.dump({"findings": [], "fixed": fixed}, fh, indent=1)
    fh.write("\n")
print(len(fixed))
