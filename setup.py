"""Warms the build cache (the checks build what they need themselves; this only makes the first one quicker)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vbuild
for f in ("san",):
    try: print(vbuild.app(f))
    except Exception as e: print("warming", f, "failed:", str(e)[-500:])
