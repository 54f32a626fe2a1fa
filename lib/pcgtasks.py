"""Registration functions written in the documented parallel-codegen pattern, for C11."""
import os
import time
from inspect import currentframe as cfr
import sympy as sp
import nrpy.c_codegen as ccg
import nrpy.c_function as cfc
import nrpy.grid as gri
import nrpy.helpers.parallel_codegen as pcg
import nrpy.params as par
from nrpy.infrastructures.BHaH import BHaH_defines_h, griddata_commondata

LOG = None


def _log(uid):
    if LOG:
        fd = os.open(LOG, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
        os.write(fd, f"{uid}\n".encode())
        os.close(fd)


def _maybe(name, loc):
    if pcg.pcg_registration_phase():
        pcg.register_func_call(f"{__name__}.{name}", loc)
        return True
    return False


def kernel(uid, delay, nfunc, ngf, ncp, gd, fail):
    if _maybe("kernel", dict(uid=uid, delay=delay, nfunc=nfunc, ngf=ngf, ncp=ncp, gd=gd, fail=fail)):
        return None
    _log(f"kernel {uid} {nfunc} {ngf} {ncp} {gd}")
    time.sleep(delay)
    if fail == "value":
        raise ValueError("task failure injected")
    if fail == "key":
        raise KeyError("task failure injected")
    for i in range(ncp):
        par.register_CodeParameter("REAL", f"mod{uid}", f"cp{uid}_{i}", 0.5 + i, commondata=bool(i % 2), description=f"d{i}")
    for i in range(ngf):
        gri.register_gridfunctions(f"gf{uid}x{i}q", group=["EVOL", "AUX", "AUXEVOL"][(uid + i) % 3], f_infinity=float(i), wavespeed=2.0 * i)
    for kind, modn, k in gd:
        if kind == "adjust":
            par.adjust_CodeParam_default(f"base{k}", 100.0 + uid)
        elif kind == "nparam":
            par.set_parval_from_str(f"npbase{k}", 100 + uid)
        elif kind == "grid":
            griddata_commondata.register_griddata_commondata(modn, f"REAL member{uid}_{k}", f"desc {uid}")
        elif kind == "common":
            griddata_commondata.register_griddata_commondata(modn, f"REAL cmember{uid}_{k}", f"desc {uid}", is_commondata=True)
        else:
            BHaH_defines_h.register_BHaH_defines(f"{modn}_{uid}", f"#define DEF{uid}_{k} {k}\n")
    x, y = sp.symbols("x y", real=True)
    for i in range(nfunc):
        cfc.register_CFunction(
            subdirectory=["", "sub"][i % 2], includes=["BHaH_defines.h"], desc=f"f {uid} {i}", name=f"func{uid}_{i}",
            params="const REAL x, const REAL y, REAL *restrict o",
            body=ccg.c_codegen([sp.sin(x * uid + i) * y ** (i + 2), x * y + uid], ["o[0]", "o[1]"], include_braces=False, verbose=False),
        )
    return pcg.NRPyEnv()


def plain(uid, delay):
    """registers one function; arguments alone distinguish the calls"""
    if _maybe("plain", dict(uid=uid, delay=delay)):
        return None
    _log(f"plain {uid}")
    time.sleep(delay)
    cfc.register_CFunction(desc="p", name=f"plain{uid}", params="void", body=f"int a={uid}; (void)a;\n")
    return pcg.NRPyEnv()


def base():
    """registered before any task, in serial and parallel mode alike"""
    for k in range(3):
        par.register_CodeParameter("REAL", "basemod", f"base{k}", 1.0 + k, commondata=bool(k % 2), add_to_parfile=True)
        par.register_param(int, "pcgtasks", f"npbase{k}", k)
    gri.register_gridfunctions("basegf", group="EVOL")
    griddata_commondata.register_griddata_commondata("shared_mod", "REAL basemember", "base")
