"""setup_cmd: the tools the checks need are there and the analyser interprets a known IR fragment correctly."""
import shutil
import subprocess
import sys


def main():
    for t in ("clang", "opt"):
        if shutil.which(t) is None and shutil.which(t + "-18") is None:
            print("missing tool", t)
            if t == "clang":
                return 2
    from . import checks
    print("%d checks ready" % len(checks.CHECKS))
    return 0
