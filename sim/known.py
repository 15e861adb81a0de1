"""The committed list of known findings and repaired defects.

Lines:
  known: property=<id> pinned=<file> sig=<violation class> | <what fails>
  fixed: property=<id> <commit> <what failed>
A `known:` entry matches only its own pinned plan failing with exactly its
violation class; a `fixed:` entry suppresses nothing.
"""
import os
import re


def load(path):
  res = []
  if not os.path.exists(path):
    return res
  for line in open(path):
    line = line.strip()
    if line.startswith("known:"):
      m = re.match(r"known: property=(\S+) pinned=(\S+) sig=(.*?) \| (.*)$",
                   line)
      if m:
        res.append({"property": m.group(1), "pinned": m.group(2),
                    "sig": m.group(3), "what": m.group(4)})
  return res


def match(entries, pid, sig, pinned):
  for e in entries:
    if e["property"] == pid and pinned is not None and \
        e["pinned"] == pinned and e["sig"] == sig:
      return e
  return None
