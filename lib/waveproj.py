"""A complete wave-equation program generated by the real BHaH generators, with a linked-in monitor.

The monitor (mon.c) wraps generated functions at link time (ld --wrap): it sees the state
before and after every time step, checkpoint read/write and diagnostics call, and logs one
line per event with a 64-bit hash of the evolved fields.
"""
import os
from pathlib import Path
import bhah
import vlib
from vlib import quiet, sh
import nrpy.c_function as cfc
import nrpy.params as par
from nrpy.infrastructures.BHaH import checkpointing as chkpt
from nrpy.infrastructures.BHaH import cmdline_input_and_parfiles as cmdpar
from nrpy.infrastructures.BHaH import griddata_commondata, main_c, rfm_precompute, rfm_wrapper_functions, xx_tofrom_Cart
from nrpy.infrastructures.BHaH import numerical_grids_and_timestep as numericalgrids
from nrpy.infrastructures.BHaH import CodeParameters as CPs
from nrpy.infrastructures.BHaH import BHaH_defines_h as Bdefines_h
from nrpy.infrastructures.BHaH import Makefile_helpers as Makefile
from nrpy.infrastructures.BHaH.CurviBoundaryConditions import CurviBoundaryConditions as cbc
from nrpy.infrastructures.BHaH.diagnostics import progress_indicator as progress
from nrpy.infrastructures.BHaH.MoLtimestepping import MoL
from nrpy.infrastructures.BHaH.wave_equation import wave_equation_C_codegen_library as wCl
from nrpy.helpers.generic import copy_files

MON = r"""
#include "BHaH_defines.h"
#include "BHaH_function_prototypes.h"
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <sys/uio.h>
#include <sys/stat.h>
#include <stdarg.h>
#include <stdint.h>
static int mfd = -2;
static void mlog(const char *fmt, ...) {
  if (mfd == -2) { const char *p = getenv("MON_LOG"); mfd = p ? open(p, O_WRONLY|O_CREAT|O_APPEND, 0644) : -1; }
  if (mfd < 0) return;
  char b[512]; va_list a; va_start(a, fmt); int n = vsnprintf(b, sizeof b, fmt, a); va_end(a);
  struct iovec v = { b, (size_t)n }; if (writev(mfd, &v, 1) != n) _exit(77);
}
static uint64_t fnv(uint64_t h, const void *p, size_t n) { const unsigned char *c = p; for (size_t i = 0; i < n; i++) h = (h ^ c[i]) * 1099511628211ULL; return h; }
static uint64_t state(const commondata_struct *cd, const griddata_struct *gd) {
  uint64_t h = 14695981039346656037ULL;
  for (int g = 0; g < cd->NUMGRIDS; g++) {
    const params_struct *p = &gd[g].params;
    size_t n = (size_t)NUM_EVOL_GFS * p->Nxx_plus_2NGHOSTS0 * p->Nxx_plus_2NGHOSTS1 * p->Nxx_plus_2NGHOSTS2;
    h = fnv(h, &n, sizeof n); h = fnv(h, gd[g].gridfuncs.y_n_gfs, n * sizeof(REAL));
  }
  return h;
}
static long killstep(void) { const char *k = getenv("MON_KILL_STEP"); return k ? atol(k) : -1; }
void __real_MoL_step_forward_in_time(commondata_struct *restrict commondata, griddata_struct *restrict griddata);
void __wrap_MoL_step_forward_in_time(commondata_struct *restrict commondata, griddata_struct *restrict griddata) {
  mlog("BEGIN %d %.17g %016lx\n", commondata->nn, (double)commondata->time, (unsigned long)state(commondata, griddata));
  if (killstep() == commondata->nn) raise(SIGKILL);
  __real_MoL_step_forward_in_time(commondata, griddata);
  mlog("STEP %d %.17g %016lx\n", commondata->nn, (double)commondata->time, (unsigned long)state(commondata, griddata));
}
@CKPT@
"""
CKPT = r"""
static uint64_t fstate(const commondata_struct *cd, long *size) {
  char fn[256]; snprintf(fn, 256, "checkpoint-conv_factor%.2f.dat", cd->convergence_factor);
  *size = -1; FILE *f = fopen(fn, "rb"); if (!f) return 0;
  uint64_t h = 14695981039346656037ULL; unsigned char b[65536]; size_t n; *size = 0;
  while ((n = fread(b, 1, sizeof b, f)) > 0) { h = fnv(h, b, n); *size += n; }
  fclose(f); return h;
}
void __real_write_checkpoint(const commondata_struct *restrict commondata, griddata_struct *restrict griddata);
void __wrap_write_checkpoint(const commondata_struct *restrict commondata, griddata_struct *restrict griddata) {
  long s0, s1; uint64_t f0 = fstate(commondata, &s0), h0 = state(commondata, griddata);
  mlog("WBEGIN %d %.17g\n", commondata->nn, (double)commondata->time);
  __real_write_checkpoint(commondata, griddata);
  uint64_t f1 = fstate(commondata, &s1), h1 = state(commondata, griddata);
  mlog("WCP %d %.17g %.17g %.17g %d %d %ld\n", commondata->nn, (double)commondata->time, (double)commondata->dt, (double)commondata->checkpoint_every, h0 == h1, (f0 != f1) || (s0 != s1), s1);
}
int __real_read_checkpoint(commondata_struct *restrict commondata, griddata_struct *restrict griddata);
int __wrap_read_checkpoint(commondata_struct *restrict commondata, griddata_struct *restrict griddata) {
  int r = __real_read_checkpoint(commondata, griddata);
  mlog("RCP %d %d %.17g %.17g %d %016lx\n", r, commondata->nn, (double)commondata->time, (double)commondata->t_0, commondata->nn_0, r ? (unsigned long)state(commondata, griddata) : 0UL);
  return r;
}
"""
RHS = """rhs_eval(commondata, params, rfmstruct,  RK_INPUT_GFS, RK_OUTPUT_GFS);
if (strncmp(commondata->outer_bc_type, "radiation", 50) == 0)
  apply_bcs_outerradiation_and_inner(commondata, params, bcstruct, griddata[grid].xx,
                                     gridfunctions_wavespeed,gridfunctions_f_infinity,
                                     RK_INPUT_GFS, RK_OUTPUT_GFS);"""


def generate(d, coords=("Spherical",), size=10.0, Nxx=None, mol="RK4", fd=4, simd=False, pre=True, ko=False, wave="SphericalGaussian",
             ckpt=True, t_final=2.0, collapse=1, rad_order=2, extra_param=False, wcl_kw=None, name="prog"):
    """Register and write the program; Nxx: dict coord -> [n0,n1,n2]."""
    d = Path(d)
    d.mkdir(parents=True, exist_ok=True)
    par.set_parval_from_str("Infrastructure", "BHaH")
    par.set_parval_from_str("parallel_codegen_enable", False)
    par.set_parval_from_str("fd_order", fd)
    par.adjust_CodeParam_default("NUMGRIDS", len(coords))
    par.adjust_CodeParam_default("t_final", t_final)
    uniq = list(dict.fromkeys(coords))
    with quiet():
        wCl.register_CFunction_initial_data(enable_checkpointing=ckpt, OMP_collapse=collapse)
        numericalgrids.register_CFunctions(list_of_CoordSystems=list(coords), list_of_grid_physical_sizes=[size] * len(coords), Nxx_dict={k: list(v) for k, v in Nxx.items()}, enable_rfm_precompute=pre, enable_CurviBCs=True)
        wCl.register_CFunction_exact_solution_single_Cartesian_point(WaveType=wave, **(wcl_kw or dict(default_sigma=3.0)))
        for cs in uniq:
            par.set_parval_from_str("CoordSystem_to_register_CodeParameters", cs)
            wCl.register_CFunction_rhs_eval(CoordSystem=cs, enable_rfm_precompute=pre, enable_simd=simd, enable_KreissOliger_dissipation=ko, OMP_collapse=collapse)
            xx_tofrom_Cart.register_CFunction_xx_to_Cart(CoordSystem=cs)
        wCl.register_CFunction_diagnostics(list_of_CoordSystems=uniq, default_diagnostics_out_every=0.5,
                                           grid_center_filename_tuple=("out0d-%s-conv_factor-%.2f.txt", "CoordSystemName, convergence_factor"))
        if pre:
            rfm_precompute.register_CFunctions_rfm_precompute(list_of_CoordSystems=uniq)
        cbc.CurviBoundaryConditions_register_C_functions(list_of_CoordSystems=uniq, radiation_BC_fd_order=rad_order)
        MoL.register_CFunctions(MoL_method=mol, rhs_string=RHS if pre else RHS.replace("rfmstruct", "xx"),
                                post_rhs_string='if (strncmp(commondata->outer_bc_type, "extrapolation", 50) == 0)\n  apply_bcs_outerextrap_and_inner(commondata, params, bcstruct, RK_OUTPUT_GFS);',
                                enable_rfm_precompute=pre, enable_curviBCs=True)
        if ckpt:
            chkpt.register_CFunctions(default_checkpoint_every=0.3)
        if extra_param:
            par.register_CodeParameter("REAL", "extra", "extra_param_a", 2.5, commondata=True)
            par.register_CodeParameter("int", "extra", "extra_param_b", 7, commondata=False)
        progress.register_CFunction_progress_indicator()
        rfm_wrapper_functions.register_CFunctions_CoordSystem_wrapper_funcs()
        CPs.write_CodeParameters_h_files(project_dir=str(d))
        CPs.register_CFunctions_params_commondata_struct_set_to_default()
        cmdpar.generate_default_parfile(project_dir=str(d), project_name=name)
        cmdpar.register_CFunction_cmdline_input_and_parfile_parser(project_name=name, cmdline_inputs=["convergence_factor"])
        Bdefines_h.output_BHaH_defines_h(project_dir=str(d), enable_intrinsics=simd, enable_rfm_precompute=pre, fin_NGHOSTS_add_one_for_upwinding_or_KO=ko)
        main_c.register_CFunction_main_c(initial_data_desc=wave, MoL_method=mol,
                                         pre_MoL_step_forward_in_time="write_checkpoint(&commondata, griddata);\n" if ckpt else "",
                                         boundary_conditions_desc="outgoing radiation")
        griddata_commondata.register_CFunction_griddata_free(enable_rfm_precompute=pre, enable_CurviBCs=True)
        if simd:
            copy_files(package="nrpy.helpers", filenames_list=["simd_intrinsics.h"], project_dir=str(d), subdirectory="intrinsics")
        Makefile.output_CFunctions_function_prototypes_and_construct_Makefile(project_dir=str(d), project_name=name, exec_or_library_name=name, CC="gcc")
    (d / "mon.c").write_text(MON.replace("@CKPT@", CKPT if ckpt else ""))


def build(d, flags=bhah.SAN, ckpt=True, extra="", jobs=4, mon="mon.c"):
    wraps = ["MoL_step_forward_in_time"] + (["write_checkpoint", "read_checkpoint"] if ckpt else [])
    rc, o, e = sh(f"gcc {flags} -c {mon} -o mon.o_", cwd=str(d))
    if rc:
        raise vlib.HarnessError(f"monitor does not compile: {e[:1500]}")
    return bhah.make(d, flags=flags, jobs=jobs, extra_ld="mon.o_ " + " ".join(f"-Wl,--wrap={w}" for w in wraps) + " " + extra)


def set_par(d, name="prog", **kw):
    p = Path(d) / f"{name}.par"
    out = []
    done = set()
    for ln in p.read_text().splitlines():
        k = ln.split("=")[0].strip() if "=" in ln and not ln.startswith("#") else None
        if k in kw:
            v = kw[k]
            ln = f"{k} = " + (f'"{v}"' if isinstance(v, str) else repr(v))
            done.add(k)
        out.append(ln)
    if set(kw) - done:
        raise vlib.HarnessError(f"parameters {set(kw) - done} are not in the default parameter file")
    p.write_text("\n".join(out) + "\n")
