#!/usr/bin/env python3-vt
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from engine import run
import threading
threading.stack_size(512 * 1024 * 1024)
out = []


def main():
    try:
        out.append(run.main(sys.argv[1:]))
    except SystemExit as e:
        out.append(e.code)


t = threading.Thread(target=main)
t.start()
t.join()
sys.stdout.flush()
os._exit(out[0] if out else 3)
