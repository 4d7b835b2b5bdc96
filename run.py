#!/usr/bin/env python3
"""run.py <property id> [--quick|--thorough] [--replay FILE] [--part NAME] [--factor X]"""
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "lib"), os.path.join(HERE, "checks")]
sys.dont_write_bytecode = True
import pbt  # noqa: E402

prop = sys.argv[1]
mod = importlib.import_module(prop.lower())
sys.exit(pbt.main(prop, mod.PARTS, level=getattr(mod, "LEVEL", "exploration"),
                  known_checks=getattr(mod, "KNOWN", None), assumptions=getattr(mod, "ASSUMPTIONS", None),
                  argv=sys.argv[2:]))
