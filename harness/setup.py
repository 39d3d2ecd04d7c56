"""setup_cmd: checks that the offline toolchain is there; nothing has to be built."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import tlc
rc, out = tlc.run("LiveSim", "MC_splice.cfg", workers=2, args=["-deadlock"])
print(out[-300:])
sys.exit(0 if rc == 0 else 1)
