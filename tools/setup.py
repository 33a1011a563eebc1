"""Warms the Go build cache; the checks do not depend on it."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf
os.makedirs(os.path.join(vf.VERIF, "build"), exist_ok=True)
p = subprocess.run(["go", "build", "-o", os.devnull, "./calls"], cwd=vf.HARNESS, env=vf.go_env())
sys.exit(p.returncode)
