import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from c02 import build, run

C = build(True)
if __name__ == '__main__':
    run(C)
