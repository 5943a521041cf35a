#!/opt/veriftools/pyvenv/bin/python3
"""check.py <property> [quick|thorough]   |   check.py --replay <file>   |   check.py --build"""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import runner
if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "--build": print(runner.B.build("asan", "server.cpp")); sys.exit(0)
    if a[0] == "--replay": sys.exit(runner.replay_file(a[1]))
    sys.exit(runner.main(a[0], a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")))
