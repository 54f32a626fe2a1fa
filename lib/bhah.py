"""Build small BHaH projects in scratch from the real generators."""
import os
import shutil
from pathlib import Path
import vlib
from vlib import sh, quiet
import nrpy.c_function as cfc
import nrpy.params as par
from nrpy.infrastructures.BHaH import BHaH_defines_h as Bdefines_h
from nrpy.infrastructures.BHaH import CodeParameters as CPs
from nrpy.infrastructures.BHaH import Makefile_helpers as Makefile
from nrpy.helpers.generic import copy_files

SAN = "-std=gnu99 -O1 -g -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=undefined -fopenmp"
FAST = "-std=gnu99 -O2 -march=native -fopenmp"


def raw_main(body, prefunc="", includes=None):
    cfc.register_CFunction(
        includes=(includes or []) + ["BHaH_defines.h", "BHaH_function_prototypes.h"],
        prefunc=prefunc,
        desc="monitor driver",
        cfunc_type="int",
        name="main",
        params="int argc, const char *argv[]",
        body=body,
        clang_format_options="-style={DisableFormat: true}",
    )


def write_project(d, simd=False, rfm_precompute=False, add_ng=False, defaults=True, **mk):
    d = Path(d)
    d.mkdir(parents=True, exist_ok=True)
    with quiet():
        CPs.write_CodeParameters_h_files(project_dir=str(d))
        if defaults:
            CPs.register_CFunctions_params_commondata_struct_set_to_default()
        Bdefines_h.output_BHaH_defines_h(
            project_dir=str(d),
            enable_intrinsics=simd,
            enable_rfm_precompute=rfm_precompute,
            fin_NGHOSTS_add_one_for_upwinding_or_KO=add_ng,
        )
        if simd:
            copy_files(
                package="nrpy.helpers",
                filenames_list=["simd_intrinsics.h"],
                project_dir=str(d),
                subdirectory="intrinsics",
            )
        Makefile.output_CFunctions_function_prototypes_and_construct_Makefile(
            project_dir=str(d), project_name="prog", exec_or_library_name="prog", CC="gcc", **mk
        )
    return d


def make(d, flags=SAN, jobs=4, extra_ld="", timeout=600):
    """Compile with the project's own Makefile; returns (rc, log)."""
    rc, out, err = sh(
        ["make", f"-j{jobs}", "CC=gcc", f"CFLAGS={flags}", f"LDFLAGS=-lm -fopenmp {extra_ld}"],
        cwd=str(d),
        timeout=timeout,
    )
    return rc, out + err


def run(d, args=(), exe="./prog", env=None, timeout=300, inp=None):
    e = dict(vlib.SAN_ENV)
    if env:
        e.update(env)
    return sh([exe, *map(str, args)], cwd=str(d), env=e, timeout=timeout, inp=inp)


def san_report(rc, err):
    """A sanitizer / crash diagnosis, or None."""
    for key in ("AddressSanitizer", "LeakSanitizer", "runtime error:"):
        if key in err:
            i = err.index(key)
            return err[max(0, i - 100): i + 1500]
    if rc < 0 and rc != -999:
        return f"killed by signal {-rc}\n" + err[-800:]
    return None
