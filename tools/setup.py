#!/usr/bin/env python3
"""checks that the tools used are there; nothing needs to be built ahead of time"""
import shutil, sys
miss = [t for t in ("clang-18", "opt-18", "llvm-link-18") if not shutil.which(t)]
print("missing: " + ", ".join(miss) if miss else "ok"); sys.exit(1 if miss else 0)
