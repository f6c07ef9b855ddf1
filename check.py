#!/usr/bin/env python3
"""check.py <property>            run the check of a property (VERIF_TIER, VERIF_SEED)
   check.py --replay <file>       replay a reported violation"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sim import engine

if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        sys.exit(engine.replay(sys.argv[2]))
    from sim import props
    sys.exit(engine.main(props.get(sys.argv[1])))
