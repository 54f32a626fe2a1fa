"""Generate, build and probe a complete NRPyElliptic program (hyperbolic relaxation of puncture data)."""
from pathlib import Path
import bhah
import vlib
from vlib import quiet, sh
import nrpy.params as par
import nrpy.infrastructures.BHaH.nrpyelliptic.conformally_flat_C_codegen_library as E
from nrpy.helpers.generic import copy_files
from nrpy.infrastructures.BHaH import BHaH_defines_h as Bdefines_h
from nrpy.infrastructures.BHaH import CodeParameters as CPs
from nrpy.infrastructures.BHaH import Makefile_helpers as Makefile
from nrpy.infrastructures.BHaH import checkpointing as chkpt
from nrpy.infrastructures.BHaH import cmdline_input_and_parfiles as cmdpar
from nrpy.infrastructures.BHaH import griddata_commondata, main_c, rfm_precompute, rfm_wrapper_functions, xx_tofrom_Cart
from nrpy.infrastructures.BHaH import numerical_grids_and_timestep as numericalgrids
from nrpy.infrastructures.BHaH.CurviBoundaryConditions import CurviBoundaryConditions as cbc
from nrpy.infrastructures.BHaH.diagnostics import progress_indicator as progress
from nrpy.infrastructures.BHaH.MoLtimestepping import MoL

RHS = """rhs_eval(commondata, params, rfmstruct,  auxevol_gfs, RK_INPUT_GFS, RK_OUTPUT_GFS);
if (strncmp(commondata->outer_bc_type, "radiation", 50) == 0){
  const REAL wavespeed_at_outer_boundary = auxevol_gfs[IDX4(VARIABLE_WAVESPEEDGF, Nxx_plus_2NGHOSTS0-NGHOSTS-1, NGHOSTS, Nxx_plus_2NGHOSTS2/2)];
  const REAL custom_gridfunctions_wavespeed[2] = {wavespeed_at_outer_boundary, wavespeed_at_outer_boundary};
  apply_bcs_outerradiation_and_inner(commondata, params, bcstruct, griddata->xx,
                                     custom_gridfunctions_wavespeed, gridfunctions_f_infinity,
                                     RK_INPUT_GFS, RK_OUTPUT_GFS);
}"""
STOP = r"""    check_stop_conditions(&commondata, griddata);
    if (commondata.stop_relaxation) {
      commondata.checkpoint_every = 1e-4*commondata.dt;
      write_checkpoint(&commondata, griddata);
      break;
    }
"""
MON = r"""
#include "BHaH_defines.h"
#include "BHaH_function_prototypes.h"
#include <unistd.h>
static void dump(const char *fn, const REAL *a, size_t n) { FILE *f = fopen(fn, "ab"); fwrite(a, sizeof(REAL), n, f); fclose(f); }
void __real_diagnostics(commondata_struct *restrict commondata, griddata_struct *restrict griddata);
void __wrap_diagnostics(commondata_struct *restrict commondata, griddata_struct *restrict griddata) {
  params_struct *params = &griddata[0].params;
  const size_t n = (size_t)params->Nxx_plus_2NGHOSTS0 * params->Nxx_plus_2NGHOSTS1 * params->Nxx_plus_2NGHOSTS2;
  REAL *aux = griddata[0].gridfuncs.auxevol_gfs, *diag = griddata[0].gridfuncs.diagnostic_output_gfs;
  if (commondata->nn == 0) {
    FILE *g = fopen("grid.txt", "w");
    fprintf(g, "%.17g %d", commondata->dt, NGHOSTS);
@PAR@
    fprintf(g, "\n");
    for (int d = 0; d < 3; d++) { const int N = d == 0 ? params->Nxx_plus_2NGHOSTS0 : d == 1 ? params->Nxx_plus_2NGHOSTS1 : params->Nxx_plus_2NGHOSTS2;
      for (int i = 0; i < N; i++) fprintf(g, "%.17g ", griddata[0].xx[d][i]); fprintf(g, "\n"); }
    fclose(g);
    if (access("in.bin", R_OK) == 0) {
      REAL *in = malloc(16 * n), *rhs = malloc(16 * n), *res = malloc(8 * n * NUM_EVOL_GFS);
      FILE *f = fopen("in.bin", "rb"); if (fread(in, 8, 2 * n, f) != 2 * n) exit(7); fclose(f);
      for (size_t i = 0; i < 2 * n; i++) { rhs[i] = 1.25e300; res[i] = 1.25e300; }
      REAL *aux0 = malloc(8 * n * NUM_AUXEVOL_GFS); memcpy(aux0, aux, 8 * n * NUM_AUXEVOL_GFS);
      rhs_eval(commondata, params, @RFM@, aux, in, rhs);
      compute_residual_all_points(commondata, params, @RFM@, aux, in, res);
      if (memcmp(aux0, aux, 8 * n * NUM_AUXEVOL_GFS)) exit(8);
      REAL norms[3];
      norms[0] = compute_L2_norm_of_gridfunction(commondata, griddata, 1e300, RESIDUAL_HGF, res);
      norms[1] = compute_L2_norm_of_gridfunction(commondata, griddata, @RAD@, RESIDUAL_HGF, res);
      norms[2] = compute_L2_norm_of_gridfunction(commondata, griddata, 1e300, UUGF, in);
      dump("probe.bin", aux, n * NUM_AUXEVOL_GFS); dump("probe.bin", rhs, 2 * n); dump("probe.bin", res, n); dump("probe.bin", norms, 3);
      free(in); free(rhs); free(res); free(aux0);
    }
    dump("start.bin", griddata[0].gridfuncs.y_n_gfs, 2 * n);
  }
  __real_diagnostics(commondata, griddata);
  FILE *l = fopen("mon.log", "a"); fprintf(l, "%d %.17g %.17g\n", commondata->nn, (double)commondata->time, (double)commondata->log10_current_residual); fclose(l);
  unlink("last.bin"); dump("last.bin", griddata[0].gridfuncs.y_n_gfs, 2 * n); dump("last.bin", diag + n * RESIDUAL_HGF, n);
}
"""


def generate(d, cs, size, Nxx, fd=4, simd=False, pre=True, collapse=1, rad_order=2, mol="RK4", code_params=None, out_every=20, name="prog", rad=1.0, params=()):
    d = Path(d)
    d.mkdir(parents=True, exist_ok=True)
    par.set_parval_from_str("Infrastructure", "BHaH")
    par.set_parval_from_str("parallel_codegen_enable", False)
    par.set_parval_from_str("fd_order", fd)
    par.set_parval_from_str("CoordSystem_to_register_CodeParameters", cs)
    par.adjust_CodeParam_default("NUMGRIDS", 1)
    par.adjust_CodeParam_default("t_final", 1e6)
    with quiet():
        E.register_CFunction_initial_guess_single_point()
        E.register_CFunction_initial_guess_all_points(OMP_collapse=collapse, enable_checkpointing=True)
        E.register_CFunction_variable_wavespeed_gfs_all_points(CoordSystem=cs)
        E.register_CFunction_auxevol_gfs_single_point(CoordSystem=cs)
        E.register_CFunction_auxevol_gfs_all_points(OMP_collapse=collapse)
        E.register_CFunction_initialize_constant_auxevol()
        numericalgrids.register_CFunctions(list_of_CoordSystems=[cs], list_of_grid_physical_sizes=[size], Nxx_dict={cs: list(Nxx)}, enable_rfm_precompute=pre, enable_CurviBCs=True)
        xx_tofrom_Cart.register_CFunction_xx_to_Cart(CoordSystem=cs)
        E.register_CFunction_diagnostics(CoordSystem=cs, default_diagnostics_out_every=out_every)
        if pre:
            rfm_precompute.register_CFunctions_rfm_precompute(list_of_CoordSystems=[cs])
        E.register_CFunction_rhs_eval(CoordSystem=cs, enable_rfm_precompute=pre, enable_simd=simd, OMP_collapse=collapse)
        E.register_CFunction_compute_residual_all_points(CoordSystem=cs, enable_rfm_precompute=pre, enable_simd=simd, OMP_collapse=collapse)
        E.register_CFunction_compute_L2_norm_of_gridfunction(CoordSystem=cs)
        E.register_CFunction_check_stop_conditions()
        cbc.CurviBoundaryConditions_register_C_functions(list_of_CoordSystems=[cs], radiation_BC_fd_order=rad_order)
        MoL.register_CFunctions(MoL_method=mol, rhs_string=RHS if pre else RHS.replace("rfmstruct", "xx"),
                                post_rhs_string='if (strncmp(commondata->outer_bc_type, "extrapolation", 50) == 0)\n  apply_bcs_outerextrap_and_inner(commondata, params, bcstruct, RK_OUTPUT_GFS);',
                                enable_rfm_precompute=pre, enable_curviBCs=True)
        chkpt.register_CFunctions(default_checkpoint_every=1e5)
        progress.register_CFunction_progress_indicator(progress_str="", compute_ETA=False)
        rfm_wrapper_functions.register_CFunctions_CoordSystem_wrapper_funcs()
        for k, v in (code_params or {}).items():
            par.adjust_CodeParam_default(k, v)
        par.adjust_CodeParam_default("CFL_FACTOR", 1.0)
        CPs.write_CodeParameters_h_files(project_dir=str(d))
        CPs.register_CFunctions_params_commondata_struct_set_to_default()
        cmdpar.generate_default_parfile(project_dir=str(d), project_name=name)
        cmdpar.register_CFunction_cmdline_input_and_parfile_parser(project_name=name, cmdline_inputs=["convergence_factor"])
        Bdefines_h.output_BHaH_defines_h(project_dir=str(d), enable_intrinsics=simd, enable_rfm_precompute=pre, DOUBLE_means="REAL")
        main_c.register_CFunction_main_c(MoL_method=mol, initial_data_desc="", boundary_conditions_desc="outgoing radiation",
                                         post_non_y_n_auxevol_mallocs="initialize_constant_auxevol(&commondata, griddata);\n",
                                         pre_MoL_step_forward_in_time="write_checkpoint(&commondata, griddata);\n", post_MoL_step_forward_in_time=STOP)
        griddata_commondata.register_CFunction_griddata_free(enable_rfm_precompute=pre, enable_CurviBCs=True)
        if simd:
            copy_files(package="nrpy.helpers", filenames_list=["simd_intrinsics.h"], project_dir=str(d), subdirectory="intrinsics")
        Makefile.output_CFunctions_function_prototypes_and_construct_Makefile(project_dir=str(d), project_name=name, exec_or_library_name=name, CC="gcc")
    import gridproj
    ps = gridproj.param_names()
    pr = "".join(f'    fprintf(g, " {n}={f}", {e});\n' for n, f, e in ps)
    (d / "mon.c").write_text(MON.replace("@PAR@", pr).replace("@RFM@", "&griddata[0].rfmstruct" if pre else "griddata[0].xx").replace("@RAD@", repr(rad)))


def build(d, flags, jobs=2):
    rc, o, e = sh(f"gcc {flags} -c mon.c -o mon.o_", cwd=str(d))
    if rc:
        return rc, e
    return bhah.make(d, flags=flags, jobs=jobs, extra_ld="mon.o_ -Wl,--wrap=diagnostics")
