"""Complete superB (Charm++) programs and their BHaH counterparts: generation, build, runs and step records."""
import re
import struct
from pathlib import Path
import bhah
import charmshim
import vlib
import waveproj
import ellproj
from vlib import quiet, sh
import nrpy.c_function as cfc
import nrpy.params as par
from nrpy.helpers.generic import copy_files

FLAGS = "-std=gnu++20 -O1 -g1 -fpermissive -w -fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-sanitize=vla-bound -fno-omit-frame-pointer -I."
REFMON = r"""
#include "BHaH_defines.h"
#include "BHaH_function_prototypes.h"
static FILE *trace;
static void rec(int nn, const commondata_struct *c, griddata_struct *g) {
  if (!trace) trace = fopen("trace.bin", "wb");
  params_struct *p = &g[0].params; int h[8] = {nn, 0, 0, 0, p->Nxx_plus_2NGHOSTS0, p->Nxx_plus_2NGHOSTS1, p->Nxx_plus_2NGHOSTS2, NUM_EVOL_GFS};
  double t = c->time; fwrite(h, 4, 8, trace); fwrite(&t, 8, 1, trace); fwrite(g[0].gridfuncs.y_n_gfs, 8, (size_t)h[4] * h[5] * h[6] * h[7], trace); fflush(trace);
}
void __real_MoL_step_forward_in_time(commondata_struct *restrict commondata, griddata_struct *restrict griddata);
void __wrap_MoL_step_forward_in_time(commondata_struct *restrict commondata, griddata_struct *restrict griddata) {
  rec(commondata->nn, commondata, griddata);
  __real_MoL_step_forward_in_time(commondata, griddata);
  rec(-1, commondata, griddata);
}
"""
WAVE_ID = r"""
  if (initial_data_part == INITIALDATA_BIN_ONE) {
    for (int grid = 0; grid < commondata->NUMGRIDS; grid++) {
      params_struct *restrict params = &griddata[grid].params;
#include "set_CodeParameters.h"
      REAL *restrict xx[3];
      for (int ww = 0; ww < 3; ww++) xx[ww] = griddata[grid].xx[ww];
      REAL *restrict in_gfs = griddata[grid].gridfuncs.y_n_gfs;
      for (int i2 = 0; i2 < Nxx_plus_2NGHOSTS2; i2++) for (int i1 = 0; i1 < Nxx_plus_2NGHOSTS1; i1++) for (int i0 = 0; i0 < Nxx_plus_2NGHOSTS0; i0++) {
        REAL xCart[3]; xx_to_Cart(commondata, params, xx, i0, i1, i2, xCart);
        exact_solution_single_Cartesian_point(commondata, params, xCart[0], xCart[1], xCart[2], &in_gfs[IDX4(UUGF, i0, i1, i2)], &in_gfs[IDX4(VVGF, i0, i1, i2)]);
      }
    }
  }
"""


def common(d, cs, size, Nxx, pre):
    import nrpy.infrastructures.BHaH.numerical_grids_and_timestep as ng
    import nrpy.infrastructures.superB.numerical_grids as sng
    from nrpy.infrastructures.BHaH import rfm_precompute
    ng.register_CFunctions(list_of_CoordSystems=[cs], list_of_grid_physical_sizes=[size], Nxx_dict={cs: list(Nxx)}, enable_rfm_precompute=pre, enable_CurviBCs=True)
    sng.register_CFunctions(list_of_CoordSystems=[cs], enable_rfm_precompute=pre, enable_CurviBCs=True)
    if pre:
        rfm_precompute.register_CFunctions_rfm_precompute(list_of_CoordSystems=[cs])


def finish(d, cs, mol, name, rad_order, rhs, outer, pre, simd, ko, ts_kw, post=""):
    import nrpy.infrastructures.BHaH.BHaH_defines_h as Bdefines_h
    import nrpy.infrastructures.BHaH.cmdline_input_and_parfiles as cmdpar
    import nrpy.infrastructures.BHaH.CodeParameters as CPs
    import nrpy.infrastructures.superB.chare_communication_maps as charecomm
    import nrpy.infrastructures.superB.CurviBoundaryConditions as superBcbc
    import nrpy.infrastructures.superB.main_chare as superBmain
    import nrpy.infrastructures.superB.Makefile_helpers as superBMakefile
    import nrpy.infrastructures.superB.MoL as superBMoL
    import nrpy.infrastructures.superB.superB.superB_pup as superBpup
    import nrpy.infrastructures.superB.timestepping_chare as ts
    from nrpy.infrastructures.BHaH import rfm_wrapper_functions
    ck = ts_kw.get("enable_charm_checkpointing", False)
    charecomm.chare_comm_register_C_functions(list_of_CoordSystems=[cs])
    superBcbc.CurviBoundaryConditions_register_C_functions(list_of_CoordSystems=[cs], radiation_BC_fd_order=rad_order)
    superBMoL.register_CFunctions(MoL_method=mol, rhs_string=rhs if pre else rhs.replace("rfmstruct", "xx"),
                                  post_rhs_bcs_str="" if outer == "radiation" else "\napply_bcs_outerextrap_and_inner(commondata, params, bcstruct, RK_OUTPUT_GFS);",
                                  post_rhs_string=post, enable_rfm_precompute=pre, enable_curviBCs=True)
    rfm_wrapper_functions.register_CFunctions_CoordSystem_wrapper_funcs()
    if ck:
        par.CodeParameter("REAL", "nrpy.infrastructures.superB", "checkpoint_every", 1.0, commondata=True)
    CPs.write_CodeParameters_h_files(project_dir=str(d))
    CPs.register_CFunctions_params_commondata_struct_set_to_default()
    cmdpar.generate_default_parfile(project_dir=str(d), project_name=name)
    cmdpar.register_CFunction_cmdline_input_and_parfile_parser(project_name=name, cmdline_inputs=["convergence_factor"])
    superBpup.register_CFunction_superB_pup_routines(list_of_CoordSystems=[cs], MoL_method=mol)
    copy_files(package="nrpy.infrastructures.superB.superB", filenames_list=["superB.h", "superB_pup_function_prototypes.h"], project_dir=str(d), subdirectory="superB")
    superBmain.output_commondata_object_h_and_main_h_cpp_ci(project_dir=str(d), **({"enable_charm_checkpointing": True} if ck else {}))
    ts.output_timestepping_h_cpp_ci_register_CFunctions(project_dir=str(d), MoL_method=mol, outer_bcs_type=outer, enable_rfm_precompute=pre, **ts_kw)
    Bdefines_h.output_BHaH_defines_h(additional_includes=[str(Path("superB") / Path("superB.h"))], project_dir=str(d), enable_intrinsics=simd, enable_rfm_precompute=pre, fin_NGHOSTS_add_one_for_upwinding_or_KO=ko)
    if simd:
        copy_files(package="nrpy.helpers", filenames_list=["simd_intrinsics.h"], project_dir=str(d), subdirectory="intrinsics")
    superBMakefile.output_CFunctions_function_prototypes_and_construct_Makefile(project_dir=str(d), project_name=name, exec_or_library_name=name, compiler_opt_option="default", addl_CFLAGS=["-fpermissive "], addl_libraries=["-module CkIO"], CC="charmc")


def setup(fd, cs, t_final):
    par.set_parval_from_str("Infrastructure", "BHaH")
    par.set_parval_from_str("parallel_codegen_enable", False)
    par.set_parval_from_str("fd_order", fd)
    par.set_parval_from_str("CoordSystem_to_register_CodeParameters", cs)
    par.adjust_CodeParam_default("NUMGRIDS", 1)
    par.adjust_CodeParam_default("t_final", t_final)


def wave(d, cs="Spherical", size=6.0, Nxx=(12, 8, 8), mol="RK4", fd=4, outer="radiation", pre=True, ckpt=True, t_final=1.0, out_every=0.2, rad_order=2, code_params=None, name="prog", wtype="PlaneWave", wkw=None):
    d = Path(d)
    d.mkdir(parents=True, exist_ok=True)
    import nrpy.infrastructures.superB.diagnostics as sdiag
    from nrpy.infrastructures.BHaH import xx_tofrom_Cart
    from nrpy.infrastructures.BHaH.diagnostics import progress_indicator as progress
    from nrpy.infrastructures.BHaH.wave_equation import wave_equation_C_codegen_library as wCl
    setup(fd, cs, t_final)
    with quiet():
        import nrpy.grid as gri
        gri.register_gridfunctions("auxv", group="AUXEVOL")  # superB programs need one
        wCl.register_CFunction_exact_solution_single_Cartesian_point(WaveType=wtype, **(wkw or {}))
        common(d, cs, size, Nxx, pre)
        cfc.register_CFunction(includes=["BHaH_defines.h", "BHaH_function_prototypes.h"], desc="initial data", cfunc_type="void", name="initial_data",
                               params="const commondata_struct *restrict commondata, griddata_struct *restrict griddata, const int initial_data_part",
                               include_CodeParameters_h=False, body=WAVE_ID)
        wCl.register_CFunction_rhs_eval(CoordSystem=cs, enable_rfm_precompute=pre, enable_simd=False, enable_KreissOliger_dissipation=False, OMP_collapse=1)
        xx_tofrom_Cart.register_CFunction_xx_to_Cart(CoordSystem=cs)
        sdiag.register_CFunction_diagnostics(list_of_CoordSystems=[cs], default_diagnostics_out_every=out_every, enable_psi4_diagnostics=False, enable_BSSN_diagnostics=False,
                                             grid_center_filename_tuple=("out0d-conv_factor%.2f.txt", "convergence_factor"),
                                             axis_filename_tuple=("out1d-AXIS-conv_factor%.2f-t%08.4f.txt", "convergence_factor, time"),
                                             plane_filename_tuple=("out2d-PLANE-conv_factor%.2f-t%08.4f.txt", "convergence_factor, time"),
                                             out_quantities_dict={("REAL", "uu"): "y_n_gfs[IDX4pt(UUGF, idx3)]", ("REAL", "vv"): "y_n_gfs[IDX4pt(VVGF, idx3)]"})
        progress.register_CFunction_progress_indicator(progress_str="", compute_ETA=False)
        for k, v in (code_params or {}).items():
            par.adjust_CodeParam_default(k, v)
        rhs = "rhs_eval(commondata, params, rfmstruct,  RK_INPUT_GFS, RK_OUTPUT_GFS);"
        if outer == "radiation":
            rhs += "\napply_bcs_outerradiation_and_inner(commondata, params, bcstruct, griddata[grid].xx, gridfunctions_wavespeed,gridfunctions_f_infinity, RK_INPUT_GFS, RK_OUTPUT_GFS);"
        finish(d, cs, mol, name, rad_order, rhs, outer, pre, False, False, dict(enable_psi4_diagnostics=False, enable_charm_checkpointing=ckpt))


def wave_ref(d, cs="Spherical", size=6.0, Nxx=(12, 8, 8), mol="RK4", fd=4, pre=True, t_final=1.0, rad_order=2, code_params=None, wtype="PlaneWave", wkw=None, **_):
    for k, v in (code_params or {}).items():
        par.adjust_CodeParam_default(k, v) if k in par.glb_code_params_dict else None
    waveproj.generate(d, coords=(cs,), size=size, Nxx={cs: Nxx}, mol=mol, fd=fd, pre=pre, wave=wtype, ckpt=False, t_final=t_final, rad_order=rad_order, wcl_kw=wkw or {})
    ref_build(d)


def ref_build(d):
    (Path(d) / "mon.c").write_text(REFMON)
    waveproj.build(d, flags="-O1 -std=gnu99", ckpt=False, jobs=2)


def elliptic(d, cs="SinhSpherical", size=1e3, Nxx=(16, 8, 8), fd=4, mol="RK4", outer="radiation", pre=True, simd=False, out_every=3, rad_order=4, code_params=None, name="prog"):
    d = Path(d)
    d.mkdir(parents=True, exist_ok=True)
    import nrpy.infrastructures.BHaH.nrpyelliptic.conformally_flat_C_codegen_library as E
    import nrpy.infrastructures.superB.nrpyelliptic.conformally_flat_C_codegen_library as SE
    from nrpy.infrastructures.BHaH import griddata_commondata, xx_tofrom_Cart
    from nrpy.infrastructures.BHaH.diagnostics import progress_indicator as progress
    setup(fd, cs, 1e6)
    with quiet():
        E.register_CFunction_initial_guess_single_point()
        E.register_CFunction_initial_guess_all_points(OMP_collapse=1, enable_checkpointing=False)
        E.register_CFunction_variable_wavespeed_gfs_all_points(CoordSystem=cs)
        E.register_CFunction_auxevol_gfs_single_point(CoordSystem=cs)
        E.register_CFunction_auxevol_gfs_all_points(OMP_collapse=1)
        E.register_CFunction_initialize_constant_auxevol()
        common(d, cs, size, Nxx, pre)
        xx_tofrom_Cart.register_CFunction_xx_to_Cart(CoordSystem=cs)
        SE.register_CFunction_diagnostics(CoordSystem=cs, default_diagnostics_out_every=out_every)
        E.register_CFunction_rhs_eval(CoordSystem=cs, enable_rfm_precompute=pre, enable_simd=simd, OMP_collapse=1)
        E.register_CFunction_compute_residual_all_points(CoordSystem=cs, enable_rfm_precompute=pre, enable_simd=simd, OMP_collapse=1)
        SE.register_CFunction_compute_L2_norm_of_gridfunction(CoordSystem=cs)
        E.register_CFunction_check_stop_conditions()
        progress.register_CFunction_progress_indicator(progress_str="", compute_ETA=False)
        for k, v in (code_params or {}).items():
            par.adjust_CodeParam_default(k, v)
        par.adjust_CodeParam_default("CFL_FACTOR", 1.0)
        rhs = """rhs_eval(commondata, params, rfmstruct,  auxevol_gfs, RK_INPUT_GFS, RK_OUTPUT_GFS);
const REAL wavespeed_at_outer_boundary = griddata[grid].params.wavespeed_at_outer_boundary;
const REAL custom_gridfunctions_wavespeed[2] = {wavespeed_at_outer_boundary, wavespeed_at_outer_boundary};
apply_bcs_outerradiation_and_inner(commondata, params, bcstruct, griddata->xx, custom_gridfunctions_wavespeed, gridfunctions_f_infinity, RK_INPUT_GFS, RK_OUTPUT_GFS);"""
        griddata_commondata.register_CFunction_griddata_free(enable_rfm_precompute=pre, enable_CurviBCs=True)
        finish(d, cs, mol, name, rad_order, rhs, outer, pre, simd, False,
               dict(enable_psi4_diagnostics=False, enable_residual_diagnostics=True, post_non_y_n_auxevol_mallocs="initialize_constant_auxevol(&commondata, griddata_chare);\n",
                    post_MoL_step_forward_in_time="serial {\n  check_stop_conditions(&commondata, griddata_chare);\n  if (commondata.stop_relaxation) {\n    mainProxy.done();\n  }\n}\n"))


def elliptic_ref(d, cs="SinhSpherical", size=1e3, Nxx=(16, 8, 8), fd=4, mol="RK4", pre=True, simd=False, out_every=3, rad_order=4, code_params=None, **_):
    ellproj.generate(d, cs, size, Nxx, fd=fd, simd=simd, pre=pre, rad_order=rad_order, mol=mol, code_params=code_params, out_every=1)
    ref_build(d)


def build(d, jobs=8, flags=FLAGS):
    """compile the translated program; every .cpp of the project, as its Makefile would"""
    d = Path(d)
    charmshim.prepare(d)
    mk = (d / "Makefile").read_text()
    objs = re.search(r"^OBJ_FILES\s*=(.*)$", mk, flags=re.M).group(1).split()
    srcs = [o[:-2] + ".cpp" for o in objs if o.endswith(".o")]
    srcs = [s for s in srcs if s not in ("timestepping.cpp", "main.cpp")]
    order = ["timestepping.cpp", "shim_rt.cpp", "main.cpp"] + srcs
    t = "all: prog\n"
    for s in order:
        f = flags if s != "timestepping.cpp" else flags.replace("-O1", "-O0")
        if s == "shim_rt.cpp":
            f = f.replace("address,undefined", "address")
        t += f"{s[:-4]}.o: {s}\n\tg++ {f} -c {s} -o {s[:-4]}.o\n"
    o = " ".join(s[:-4] + ".o" for s in order)
    t += f"prog: {o}\n\tg++ {flags} -Wl,--wrap=malloc,--wrap=free,--wrap=calloc,--wrap=realloc {o} -lm -o prog\n"
    (d / "shim.mk").write_text(t)
    rc, out, err = sh(f"make -s -j{jobs} -f shim.mk", cwd=str(d), timeout=600)
    return rc, out + err


def run(d, w, pars, policy=0, seed=1, restart=0, timeout=120, name="prog"):
    """one execution in the scratch directory w; returns (rc, log text, stderr)"""
    w = Path(w)
    w.mkdir(parents=True, exist_ok=True)
    (w / f"{name}.par").write_text((Path(d) / f"{name}.par").read_text())
    waveproj.set_par(w, name, **pars)
    env = {"SHIM_POLICY": str(policy), "SHIM_SEED": str(seed), "SHIM_RESTART": str(restart),
           "ASAN_OPTIONS": "detect_leaks=0:max_malloc_fill_size=2000000000:malloc_fill_byte=255:detect_stack_use_after_return=0:exitcode=66:allocator_may_return_null=1",
           "UBSAN_OPTIONS": "print_stacktrace=1"}
    rc, out, err = sh(f"{Path(d).resolve()}/prog", cwd=str(w), timeout=timeout, env=env)
    log = (w / "shim.log").read_text() if (w / "shim.log").exists() else ""
    return rc, log, err


def records(fn):
    """{(nn, x, y, z): ((n0, n1, n2, gfs), time, bytes)}"""
    b = Path(fn).read_bytes()
    o, out = 0, {}
    while o < len(b):
        h = struct.unpack_from("8i", b, o)
        t = struct.unpack_from("d", b, o + 32)[0]
        n = h[4] * h[5] * h[6] * h[7]
        out[h[:4]] = (h[4:8], t, b[o + 40:o + 40 + 8 * n])
        o += 40 + 8 * n
    return out
