#!/usr/bin/env python3
"""Check that the tools the explorers need are present; nothing has to be prebuilt
(every check builds what it needs from /repo's working tree)."""
import shutil,sys,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0,os.path.join(V,"tools"))
import targets
miss=[t for t in("ninja","ar") if not shutil.which(t)]
if not any(shutil.which(c) for c in("g++-14","g++-13","g++")): miss.append("g++")
if miss: print("missing:",miss); sys.exit(1)
os.makedirs(os.path.join(V,"evidence"),exist_ok=True)
print("ok:",len(targets.PROPS),"properties")
