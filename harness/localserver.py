"""Runs the stand-alone server of the repository with the clock stopped at a given instant.
localserver.py INSTANT -d CONFDIR -c ROOT --host H --port P"""
import sys, runpy
import driver

if __name__ == "__main__":
    driver.install()
    driver.CLK.now, driver.CLK.active = float(sys.argv[1]), True
    sys.argv = ["mod_dashlivesim.py"] + sys.argv[2:]
    runpy.run_module("dashlivesim.mod_wsgi.mod_dashlivesim", run_name="__main__", alter_sys=False)
