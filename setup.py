#!/usr/bin/env python3
"""checks that what the checks need is there, and warms the Go build cache"""
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import corpus  # noqa: E402
import special  # noqa: E402
from pipeline import Work  # noqa: E402

with Work() as w:
    w.build_vgen()
    w.generate([special.combo(1)])
    w.compile(corpus)
    w.compile(corpus, race=True, out='monitor-race')
print('ready')
