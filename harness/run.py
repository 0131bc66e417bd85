import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
rc = core.main(sys.argv)
sys.stdout.flush()
os._exit(rc)
