import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(os.path.dirname(HERE), 'lib'), HERE]
import vh  # noqa: E402

if __name__ == '__main__':
    pid = sys.argv[1]
    mod = importlib.import_module(pid.lower())
    sys.exit(vh.main(pid, mod.check))
