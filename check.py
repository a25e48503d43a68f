#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]   decide one property on /repo's tree.

exit 0: held on everything analysed; exit 1 + VIOLATION line: broken;
exit 2: the analysis could not be carried out (anchor vanished, parse error)."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
from sa import driver

if __name__ == "__main__":
    sys.exit(driver.main(sys.argv[1:]))
