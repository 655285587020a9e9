#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough] [family=a,b] [n=COUNT]   run a check
   check.py PROPERTY replay FILE                              judge one recorded case again"""
import os, sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import drive  # noqa
from vlib.build import BuildError  # noqa


def main():
    prop = sys.argv[1]
    kit = {}
    if prop in ("C01", "C02", "C03", "C04", "C05"):
        from vlib import cprops
        fams, assumptions = cprops.ALL[prop], cprops.ASSUME
        kit = {"ccsim": True, "runtime": False}
    else:
        from vlib import props
        fams, assumptions = props.ALL[prop], props.ASSUME
    try:
        return drive.main(prop, fams, sys.argv[2:], kitargs=kit, assumptions=assumptions)
    except BuildError as e:
        sys.stderr.write("the tree does not build:\n%s\n" % e)
        return 4


if __name__ == "__main__":
    sys.exit(main())
