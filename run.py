#!/usr/bin/env python3
"""Entry point of the verification machinery.

  run.py check <ID> [--tier quick|thorough] [--seed N]   decide one property
  run.py replay <file>                                   run one recorded violation again
  run.py setup                                           check that the tools are there
"""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import engine

if __name__ == "__main__":
    sys.exit(engine.main(sys.argv[1:]))
