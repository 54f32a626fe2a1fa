"""Run an NRPy example script with controlled process environment: run_example.py SCRIPT parallel|serial NPROC"""
import os
import runpy
import sys

script, mode, nproc = sys.argv[1:4]
import nrpy.params as par

if mode == "serial":
    orig = par.set_parval_from_str

    def patched(name, value):
        orig(name, False if name.split("::")[-1] == "parallel_codegen_enable" else value)

    par.set_parval_from_str = patched
n = int(nproc)
os.cpu_count = lambda: n
sys.argv = [script]
runpy.run_path(script, run_name="__main__")
