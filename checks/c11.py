import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                '..', 'lib'))
import callchecks
import vplib

if __name__ == '__main__':
    sys.exit(vplib.main('C11', 'model_checking', callchecks.run))
