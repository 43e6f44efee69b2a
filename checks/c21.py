import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                '..', 'lib'))
import lifechecks
import vplib

if __name__ == '__main__':
    sys.exit(vplib.main('C21', 'model_checking', lifechecks.run))
