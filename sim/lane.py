"""Entry of one lane process (kept apart so that core is imported once, as `core`)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
core.lane_main(sys.argv[1:])
