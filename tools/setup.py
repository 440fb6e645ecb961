"""builds the extractor and the generated headers (each check does the same when they are missing)"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
inc = check.gen_headers()
out, job = check.start_extractor_build()
check.finish_extractor(out, job)
sys.exit(0 if os.path.exists(out) else 1)
