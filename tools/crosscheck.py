#!/usr/bin/env python3
"""Development aid: a second solver's opinion. crosscheck.py POSYM PROGRAM.bc ENTRY... runs the engine
with its queries written out (POSYM_DUMP_MIN: only those slower) and asks cvc5 for each of them."""
import collections, glob, os, subprocess, sys, tempfile, time
posym, prog = sys.argv[1:3]
for e in sys.argv[3:]:
    with tempfile.TemporaryDirectory() as d:
        env = dict(os.environ, POSYM_DUMP_MIN=os.environ.get("POSYM_DUMP_MIN", "0"))
        subprocess.run([posym, "run", prog, e, "--jobs", "4", "--time", "300", "--dump-queries", d, "--out", d + "/o.json"], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        c, t = collections.Counter(), time.time()
        for f in sorted(glob.glob(d + "/*.smt2")):
            want = open(f).readline().split()[-1]
            try:
                got = subprocess.run(["cvc5", "--tlimit=20000", f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True).stdout.split()
            except OSError as x:
                got = [str(x)]
            got = got[0] if got and got[0] in ("sat", "unsat") else "none"
            c["%s/%s" % (want, got)] += 1
            if want != got and got != "none":
                print("DIFFERENT", f, want, got, open(f).read()[:2000])
        print(e, "z3/cvc5", dict(c), "%.0f s" % (time.time() - t), flush=True)
