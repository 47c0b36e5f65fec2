#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
import logging
logging.disable(logging.CRITICAL)
from vc import driver
if __name__ == "__main__":
    sys.exit(driver.main(sys.argv[1:]))
