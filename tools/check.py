#!/usr/bin/env python3
"""Dispatches one property's check (see check.sh)."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *

# decided by the monitors in harness/ alone
HARNESS = {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C23"}
# the same, with a generated crate of further declarations as additional subjects
GENERATED = {"C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20"}
# a declaration which the macros should accept but which does not compile breaks these
NEED_ALL = {"C11", "C12", "C13", "C14", "C15"}


def execute(exe, prop):
    sys.stdout.flush()
    rc = subprocess.run([exe, prop], stdin=subprocess.DEVNULL).returncode
    if rc in (-4, -6, -7, -8, -11):
        # an abort, a stack overflow or an invalid memory access of safe code
        rep = Report(prop, "the monitored process survives its workload")
        rep.case("process")
        rep.violation("the monitored process was killed by signal %d while running the workload of this property" % -rc)
        sys.exit(rep.finish())
    sys.exit(rc if rc in (0, 1) else 2)


def main():
    if len(sys.argv) != 2:
        die("usage: check.sh Cxx")
    prop = sys.argv[1]
    if prop in HARNESS:
        execute(build_harness(), prop)
    if prop in GENERATED:
        exe, err = build_generated(40 if THOROUGH else 10, 12 if THOROUGH else 6)
        if err:
            if prop not in NEED_ALL:
                die("a generated declaration does not compile:\n" + err[-3000:])
            rep = Report(prop, "generated declarations are compiled first")
            rep.case("compile")
            rep.violation("a valid generated declaration does not compile, so that its derived methods do not exist: " + err[:2500])
            sys.exit(rep.finish())
        execute(exe, prop)
    name = prop.lower()
    path = os.path.join(os.path.dirname(os.path.abspath(__file__)), name + ".py")
    if os.path.exists(path):
        mod = __import__(name)
        sys.exit(mod.main())
    die("unknown property " + prop)


main()
