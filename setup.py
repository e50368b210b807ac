#!/usr/bin/env python3
"""builds the verifier; every check rebuilds what it needs from /repo (and the verifier, where it is missing)"""
import vclib
vclib.ensure_engine()
print("irv built")
