"""Regenerates MANIFEST.json (python3 tools/mkmanifest.py)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import claims

checks = [dict(property=p, quick_cmd="python3 tools/check.py %s quick" % p, thorough_cmd="python3 tools/check.py %s thorough" % p,
               technique=t, level="model_checking", level_note=n) for p, (t, n) in claims.CLAIMS.items()]
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=[dict(property=p, reason=r) for p, r in claims.NOT_APPLICABLE.items()],
         notes="TLA+ (TLC). No hooks in /repo: the public API exposes the whole abstract state; instrumented key/value/hasher/allocator types provide the rest.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
