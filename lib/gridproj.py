"""A BHaH project with real grids + curvilinear BCs and a driver that executes binary requests."""
import struct
import bhah
from vlib import quiet
import nrpy.c_function as cfc
import nrpy.grid as gri
import nrpy.params as par
import nrpy.finite_difference as fin
from nrpy.infrastructures.BHaH import griddata_commondata, rfm_precompute, rfm_wrapper_functions, xx_tofrom_Cart
from nrpy.infrastructures.BHaH import numerical_grids_and_timestep as numericalgrids
from nrpy.infrastructures.BHaH.CurviBoundaryConditions import CurviBoundaryConditions as cbc
from nrpy.infrastructures.BHaH.MoLtimestepping import MoL

MAIN_PRE = r"""
static void dump_params(const int grid, const params_struct *restrict params) {
@DUMP@
}
"""

MAIN = r"""
  commondata_struct commondata; memset(&commondata,0,sizeof commondata);
  griddata_struct *griddata = (griddata_struct *)malloc(sizeof(griddata_struct)*MAXNUMGRIDS);
  memset(griddata,0x5b,sizeof(griddata_struct)*MAXNUMGRIDS);
  commondata_struct_set_to_default(&commondata);
  if(argc>2) commondata.convergence_factor = atof(argv[2]);
  numerical_grids_and_timestep(&commondata, griddata, true);
  printf("C NUMGRIDS %d\nC dt %.17g\nC time %.17g\nC nn %d\nC NGHOSTS %d\nC CFL %.17g\n", commondata.NUMGRIDS, commondata.dt, commondata.time, commondata.nn, NGHOSTS, commondata.CFL_FACTOR);
  for(int g=0; g<commondata.NUMGRIDS; g++) {
    const params_struct *restrict params=&griddata[g].params;
    dump_params(g, params);
    for(int d=0; d<3; d++) { const int n = d==0? params->Nxx_plus_2NGHOSTS0 : d==1? params->Nxx_plus_2NGHOSTS1 : params->Nxx_plus_2NGHOSTS2;
      printf("X %d %d", g, d); for(int i=0;i<n;i++) printf(" %.17g", griddata[g].xx[d][i]); printf("\n"); }
  }
  if(argc>1 && strncmp(argv[1],"info",4)!=0) {
    FILE *in=fopen("in.bin","rb"), *out=fopen("out.bin","wb");
    int op[2];
    while(fread(op,sizeof(int),2,in)==2) {
      const int g=op[1];
      const params_struct *restrict params=&griddata[g].params;
      const size_t n=(size_t)NUM_EVOL_GFS*params->Nxx_plus_2NGHOSTS0*params->Nxx_plus_2NGHOSTS1*params->Nxx_plus_2NGHOSTS2;
      REAL *a=(REAL*)malloc(sizeof(REAL)*n); if(fread(a,sizeof(REAL),n,in)!=n) return 3;
      if(op[0]==0) apply_bcs_inner_only(&commondata, params, &griddata[g].bcstruct, a);
      else if(op[0]==1) apply_bcs_outerextrap_and_inner(&commondata, params, &griddata[g].bcstruct, a);
      else if(op[0]==2) {
        REAL ws[NUM_EVOL_GFS], fi[NUM_EVOL_GFS];
        if(fread(ws,sizeof(REAL),NUM_EVOL_GFS,in)!=NUM_EVOL_GFS || fread(fi,sizeof(REAL),NUM_EVOL_GFS,in)!=NUM_EVOL_GFS) return 3;
        REAL *rhs=(REAL*)malloc(sizeof(REAL)*n); if(fread(rhs,sizeof(REAL),n,in)!=n) return 3;
        apply_bcs_outerradiation_and_inner(&commondata, params, &griddata[g].bcstruct, griddata[g].xx, ws, fi, a, rhs);
        fwrite(rhs,sizeof(REAL),n,out); free(rhs);
      }
      fwrite(a,sizeof(REAL),n,out); free(a);
    }
    fclose(in); fclose(out);
  }
@EXTRA@
@FREE@
  return 0;
"""


def param_names():
    out = []
    for name, cp in sorted(par.glb_code_params_dict.items()):
        if cp.commondata or "[" in name:
            continue
        t = cp.cparam_type
        if t == "REAL":
            out.append((name, "%.17g", "params->" + name))
        elif t == "int":
            out.append((name, "%d", "params->" + name))
    return out


def register(coords, sizes, Nxx, fd_order, rad_order=2, gfs=True, rfm_pre=False, extra="", extra_pre="", extra_frees=True):
    par.set_parval_from_str("fd_order", fd_order)
    par.set_parval_from_str("CoordSystem_to_register_CodeParameters", coords[0] if len(coords) == 1 else "All")
    if gfs:
        gri.register_gridfunctions("uu", group="EVOL")
        gri.register_gridfunctions_for_single_rank1("VU", group="EVOL")
        gri.register_gridfunctions_for_single_rank2("hDD", symmetry="sym01", group="EVOL")
    numericalgrids.register_CFunctions(coords, sizes, Nxx, enable_rfm_precompute=rfm_pre, enable_CurviBCs=True)
    for c in dict.fromkeys(coords):
        xx_tofrom_Cart.register_CFunction_xx_to_Cart(CoordSystem=c)
    if rfm_pre:
        rfm_precompute.register_CFunctions_rfm_precompute(list_of_CoordSystems=list(dict.fromkeys(coords)))
    cbc.CurviBoundaryConditions_register_C_functions(
        list_of_CoordSystems=list(dict.fromkeys(coords)), radiation_BC_fd_order=rad_order
    )
    MoL.register_CFunctions(
        MoL_method="RK4", rhs_string="", post_rhs_string="",
        enable_rfm_precompute=rfm_pre, enable_curviBCs=True, register_MoL_step_forward_in_time=False,
    )
    par.adjust_CodeParam_default("NUMGRIDS", len(coords))
    griddata_commondata.register_CFunction_griddata_free(enable_rfm_precompute=rfm_pre, enable_CurviBCs=True)


def finish(d, extra="", extra_pre="", rfm_pre=False, simd=False, add_ng=False):
    with quiet():
        rfm_wrapper_functions.register_CFunctions_CoordSystem_wrapper_funcs()
    dump = "\n".join(f'  printf("P %d {n} {f}\\n", grid, {e});' for n, f, e in param_names())
    free = r"""
  for(int g=0; g<commondata.NUMGRIDS; g++) {
    MoL_malloc_y_n_gfs(&commondata, &griddata[g].params, &griddata[g].gridfuncs);
    MoL_malloc_non_y_n_gfs(&commondata, &griddata[g].params, &griddata[g].gridfuncs);
  }
  griddata_free(&commondata, griddata, true);
"""
    bhah.raw_main(MAIN.replace("@EXTRA@", extra).replace("@FREE@", free), MAIN_PRE.replace("@DUMP@", dump) + extra_pre)
    return bhah.write_project(d, simd=simd, rfm_precompute=rfm_pre, add_ng=add_ng)


def info(text):
    C, P, X = {}, {}, {}
    for line in text.splitlines():
        t = line.split()
        if not t:
            continue
        try:
            _info_line(t, C, P, X)
        except ValueError:
            pass  # output cut short by a crash; the caller reports it
    return C, P, X


def _info_line(t, C, P, X):
        if 1:
            pass
        if t[0] == "C" and len(t) == 3:
            C[t[1]] = float(t[2])
        elif t[0] == "P" and len(t) == 4:
            P.setdefault(int(t[1]), {})[t[2]] = float(t[3])
        elif t[0] == "X":
            X.setdefault(int(t[1]), {})[int(t[2])] = [float(v) for v in t[3:]]


def gf_order(d):
    """macro index of every EVOL gridfunction, from the generated header."""
    import re
    txt = (d / "BHaH_defines.h").read_text()
    out = {}
    for m in re.finditer(r"#define\s+([A-Z0-9_]+)GF\s+(\d+)", txt):
        out[m.group(1)] = int(m.group(2))
    return out


def pack(vals):
    return struct.pack(f"{len(vals)}d", *vals)
