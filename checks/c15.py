import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                '..', 'lib'))
import stubchecks
import vplib

if __name__ == '__main__':
    sys.exit(vplib.main('C15', 'model_checking', stubchecks.cycles))
