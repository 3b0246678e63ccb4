#!/usr/bin/env python3
"""check.py <property>: decides a property for the working tree of /repo."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

if len(sys.argv) > 2:
    os.environ["VERIF_TIER"] = sys.argv[2]

import core


def main():
    prop = sys.argv[1]
    try:
        import registry
        return registry.run(prop)
    except core.ToolError as e:
        print("check failed: %s" % e)
        return 2


sys.exit(main())
