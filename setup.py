"""Build the fact extractor and warm the caches (each check also does this by itself)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "sa"))
sys.dont_write_bytecode = True
import facts
for cfg in ((), ("no-index", "no-position", "parallel", "sqrt-dist2"), ("parallel",)):
    facts.load("fnntw", cfg)
facts.load("pyfnntw", ())
print("facts ready")
