"""Faults at the system calls of runs of the command line

`python check.py` starts itself again with the library preloaded, and runs are copies of
that process.
"""

import ctypes
import mmap
import os
import shutil
import subprocess
import sys
import tempfile

MODES = {"none": 0, "kill": 1, "fail": 2, "short": 3, "kill-partial": 4, "fail-partial": 5}
SIZE = 1 << 16
HERE = os.path.dirname(os.path.abspath(__file__))


def preload():
    """Called first: returns in a process that has the library loaded"""
    directory = os.environ.get("MC_FAULTS")
    if directory:
        del os.environ["MC_FAULTS"], os.environ["LD_PRELOAD"]
        shutil.rmtree(directory)
        return
    directory = tempfile.mkdtemp(prefix="markflow-mc-faults-")
    library = os.path.join(directory, "faults.so")
    subprocess.run(
        ["gcc", "-O1", "-shared", "-fPIC", "-o", library, os.path.join(HERE, "faults.c"),
         "-ldl"],
        check=True,
    )
    os.environ["MC_FAULTS"] = directory
    os.environ["LD_PRELOAD"] = library
    os.execv(sys.executable, [sys.executable, "-B"] + sys.argv)


class Faults:
    """A plan for one run, and the log of what the run did"""

    def __init__(self):
        self.memory = mmap.mmap(-1, SIZE)
        self.address = ctypes.addressof(ctypes.c_char.from_buffer(self.memory))
        self.library = ctypes.CDLL(None)

    def plan(self, mode="none", target=0, param=0, error=0):
        """What is to happen in the next run: a function to prepare it"""
        self.memory[:] = bytes(SIZE)

        def prepare():
            self.library.faults_arm(
                ctypes.c_void_p(self.address), SIZE, MODES[mode], target, param, error,
                os.getcwd().encode(),
            )

        return prepare

    def log(self):
        """(number, call, detail, path) of each call"""
        text = self.memory[:].split(b"\0", 1)[0].decode("utf-8", "surrogateescape")
        result = []
        for line in text.splitlines():
            number, what, detail, name = line.split("\t", 3)
            if name != "<stdout>":
                name = os.path.normpath(name)
            result.append((int(number), what, int(detail), name))
        return result


def open_for_writing(log):
    """Files that are being written when the last call of the log is made"""
    result = {}
    for _, what, _, name in log[:-1]:
        if what == "open-write":
            result[name] = result.get(name, 0) + 1
        elif what == "close" and name in result:
            result[name] -= 1
    return {name for name, n in result.items() if n > 0}
