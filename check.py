#!/usr/bin/env python3
"""python3 check.py <property> -- decide one property of /repo's current source"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import threading
threading.stack_size(512 * 1024 * 1024)


def run(out):
    from checks import props
    out.append(props.run(sys.argv[1]))


if __name__ == '__main__':
    out = []
    t = threading.Thread(target=run, args=(out,))
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(out[0] if out else 2)
