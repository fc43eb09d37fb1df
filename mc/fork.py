"""Run a function in a fresh copy of this process"""

import os
import pickle
import traceback


def in_fork(function, *args):
    """The result of the function, called in a child process"""
    read_fd, write_fd = os.pipe()
    pid = os.fork()
    if pid == 0:
        status = 1
        try:
            os.close(read_fd)
            data = pickle.dumps(("result", function(*args)))
            status = 0
        except BaseException:
            data = pickle.dumps(("traceback", traceback.format_exc()))
        try:
            with os.fdopen(write_fd, "wb") as f:
                f.write(data)
        finally:
            os._exit(status)
    os.close(write_fd)
    try:
        with os.fdopen(read_fd, "rb") as f:
            data = f.read()
    finally:
        _, status = os.waitpid(pid, 0)
    if not data:
        raise RuntimeError(f"child died with status {status}")
    kind, value = pickle.loads(data)
    if kind != "result":
        raise RuntimeError(value)
    return value
