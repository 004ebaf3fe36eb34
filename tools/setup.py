"""Builds what the checks share: the search harness (the checks build it again from the tree they see)."""
import os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(HERE, ".build", "target"), RUSTFLAGS="--cfg ariadne_verif -Awarnings",
           CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="")
r = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=os.path.join(HERE, "harness"), env=env)
subprocess.run(["verus", "--version"])
sys.exit(0)
