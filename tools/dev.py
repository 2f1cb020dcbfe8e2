"""dev.py SUB MIX NUM DEPTH [module gen trace unit]: a development run of one mix; prints the verdict briefly."""
import sys, os, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "bin"))
import vlib
sub, mix, num, depth = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
gen, tr, unit = (sys.argv[5:] + ["GenHsms", "TraceHsms", "new"][len(sys.argv) - 5:])
c = vlib.Check("DEV", os.environ.get("TIER", "quick"), int(os.environ.get("VERIF_SEED", "1")))
t = time.time()
try:
    c.build(yields=bool(os.environ.get("YIELD")))
    scn = c.generate(gen, "GenHsms.cfg" if gen == "GenHsms" else gen + ".cfg", num=num, depth=depth + 5, env={"MIX": mix, "DEPTH": str(depth)})
    print("gen %d %.1fs" % (len(scn), time.time() - t)); t = time.time()
    files = c.drive(sub, scn, env={"VERIF_YIELD": os.environ.get("YIELD", "0")})
    print("drive %.1fs" % (time.time() - t)); t = time.time()
    c.validate(files, tr, unit=unit)
    print("OK %.1fs traces %d lines %d" % (time.time() - t, c.traces, c.lines))
except vlib.Violation as v:
    print("VIOLATION", v.replay); print(v.text[:int(os.environ.get("CUT", "2500"))])
except vlib.Broken as v:
    print("BROKEN", str(v)[:3000])
finally:
    if not os.environ.get("VERIF_KEEP"):
        c.cleanup()
    else:
        print(c.dir)
