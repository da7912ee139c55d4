"""planted bugs, second batch (inputs, radiation, restart, tools)."""
S = []


def s(id, prop, edits, needs, breaks, demo):
    S.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


R = "cosipy/modules/radCor.py"
X = "COSIPY.py"
IO = "cosipy/cpkernel/io.py"
ST = "cosipy/utilities/createStatic/create_static_file.py"
RAD = """
import types, warnings
warnings.simplefilter("ignore")
import cosipy.modules.radCor as rc
"""
s("s28_beam_azimuth", "C31", [(R, "        * math.cos(azi - (azislo * FAC))\n", "        * math.cos(abs(azi) - (azislo * FAC))\n")],
  "a slope facing east or west with the sun in the other half of the sky", "morning sun is treated as afternoon sun",
  RAD + """
args = dict(doy=180, zeni=1.0, angslo=30.0, Rm=600.0, zeni_thld=89.0)
am = rc.radCor2D(azi=-1.2, azislo=-70.0, **args)
pm = rc.radCor2D(azi=-1.2, azislo=70.0, **args)
assert am > pm + 1.0, (am, pm)
""")
s("s29_diffuse_floor", "C31", [(R, "    if CI > 50:\n", "    if CI > 1.2:\n")],
  "a clearness index between 1.2 and 50", "not observable beyond the empirical curve", "")
S.pop()
s("s30_restart_swapped", "C26", [(X, """                            GRID_RESTART=IO.create_grid_restart().isel(
                                lat=y, lon=x
""", """                            GRID_RESTART=IO.create_grid_restart().isel(
                                lat=y, lon=min(x, y)
""")], "a restart of a grid with glacier cells east of the diagonal", "cells restart from the column of another cell", """
import types
import xarray as xr
import pandas as pd
import COSIPY as cs
from cosipy.config import Config
Config.restart, Config.WRF, Config.stake_evaluation, Config.tile = True, False, False, False
Config.northing, Config.easting = "lat", "lon"
seen = []
class Done(Exception):
    pass
ny, nx = 2, 3
D = xr.Dataset({"MASK": (("lat", "lon"), np.ones((ny, nx))), "T2": (("time", "lat", "lon"), np.ones((1, ny, nx)))},
               coords=dict(time=pd.date_range("2020", periods=1, freq="h"), lat=np.arange(ny) * 1.0, lon=np.arange(nx) * 1.0))
G = xr.Dataset({"I": (("lat", "lon"), np.arange(6.0).reshape(ny, nx))}, coords=dict(lat=D.lat, lon=D.lon))
class Client:
    def __init__(self, *a, **k): pass
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def submit(self, f, data, y, x, GRID_RESTART=None, **k):
        seen.append((y, x, float(GRID_RESTART.I.values)))
        return len(seen)
class IOS:
    def create_grid_restart(self): return G
    def get_grid_restart(self): return types.SimpleNamespace(close=lambda: None)
    def create_global_result_arrays(self): raise Done
class Cfg:
    restart, WRF, stake_evaluation, slurm_use, northing, easting = True, False, False, False, "lat", "lon"
    def __call__(self): return self
cs.Config = Cfg()
cs.Client, cs.progress = Client, lambda f: None
try:
    cs.run_cosipy(None, IOS(), D, None, None, [])
except Done:
    pass
assert len(seen) == 6, seen
assert all(v == y * nx + x for y, x, v in seen), seen
""")
s("s31_range_mean", "C27", [(IO, "np.nanmax(field) > _max or np.nanmin(field) < _min", "np.nanmax(field) > _max or np.nanmax(field) < _min")],
  "a field with one value below its lower bound and others within", "values below the bounds are accepted in silence", """
import warnings
import xarray as xr
from cosipy.cpkernel.io import IOClass
io = IOClass.__new__(IOClass)
io.DATA = xr.Dataset({"T2": ("time", np.array([270.0, 100.0, 271.0]))})
with warnings.catch_warnings(record=True) as w:
    warnings.simplefilter("always")
    import contextlib, io as i2
    out = i2.StringIO()
    with contextlib.redirect_stdout(out):
        io.check_input_data()
assert w or "T2 ... ok" not in out.getvalue(), out.getvalue()
""")
s("s32_restart_water", "C22", [("cosipy/cpkernel/cosipy_core.py", "    RESTART.LAYER_LWC[0:GRID.get_number_layers()] = GRID.get_liquid_water_content()\n",
  "    RESTART.LAYER_LWC[0:GRID.get_number_snow_layers()] = GRID.get_liquid_water_content()[0:GRID.get_number_snow_layers()]\n")],
  "a restart with water in the glacier layers", "the restart file misses the water of the ice layers", None)
S.pop()
s("s33_confirm_default", "C34", [("cosipy/utilities/setup_cosipy/setup_cosipy.py", '''    user_input: str = input(prompt).lower().strip()
''', '''    user_input: str = input(prompt).lower().strip()[:1]
''')], "an answer that only begins with y", "anything beginning with y overwrites", """
import builtins
import cosipy.utilities.setup_cosipy.setup_cosipy as sc
ans = iter(["yikes", "n"])
builtins.input = lambda p="": next(ans)
assert sc.get_user_confirmation("?") is False
""")
s("s34_stake_columns", "C35", [("cosipy/modules/evaluation.py", "        ).mean() ** 0.5\n", "        ).mean().mean() ** 0.5\n")],
  "several stakes", "one score for all", None)
S.pop()
s("s34_stake_missing", "C35", [("cosipy/modules/evaluation.py", "            (stake_data[stake_names].subtract(df[Config.obs_type], axis=0))\n",
  "            (stake_data[stake_names].fillna(0.0).subtract(df[Config.obs_type], axis=0))\n")],
  "dates without observation", "missing observations count as measured zeros", """
import pandas as pd
from cosipy.config import Config
from cosipy.modules.evaluation import evaluate
Config.eval_method, Config.obs_type = "rmse", "mb"
t = pd.date_range("2020", periods=3, freq="D")
df = pd.DataFrame(dict(mb=[-1.0, -2.0, -3.0], snowheight=0.0), index=t)
st = pd.DataFrame(dict(a=[-1.0, np.nan, -3.0]), index=t)
assert abs(evaluate(["a"], st, df)["a"]) < 1e-12
""")
s("s35_shading_slot", "C39", [(R, "illu = shad1yr[int(((doy - 1) * (86400 / STEP)) + (hour / (STEP / 3600))), :, :]", "illu = shad1yr[int(((doy - 1) * (86400 / STEP)) + hour), :, :]")],
  "a time step other than one hour", "the shading of another time of the day is used", RAD + """
sp, tc = rc.solpars(47.0)
lut = np.ones((366 * 8, 1, 1)); lut[170 * 8 + 4] = 0.0        # 12-15 h of day 171
one = np.ones((1, 1))
r = lambda L: rc.calcRad(sp, tc, 171, 12, 47.0, one * 275, one * 700, one * 60, one * 0.0, one * 3000.0, one, one * 20.0, one * 180.0, L, one, 10800, 0.0)[0, 0]
assert r(lut) < 0.6 * r(np.ones_like(lut)), (r(lut), r(np.ones_like(lut)))
""")
s("s36_svf_mirrored", "C40", [(R, "np.sin(slo) * np.cos(asp - np.radians(azi))", "np.sin(slo) * np.cos(asp + np.radians(azi))")],
  "a tilted cell with terrain to its east or west", "the sky-view factor sees the terrain behind the slope", RAD + """
rc.relshad = lambda dem, m, la, lo, el, azi: np.array([[0.0 if 0 < azi < 180 and el < 40 else 1.0]])     # wall in the east
v = lambda a: rc.LUTsvf(np.zeros((1, 1)), np.ones((1, 1)), np.array([[45.0]]), np.array([[a]]), np.zeros(1), np.zeros(1))[0, 0]
assert v(90.0) < v(270.0) - 0.05, (v(90.0), v(270.0))
""")
s("s37_first_rise_only", "C40", [(R, "                if np.max(Hang) > solh:\n", "                if np.max(Hang[: max(1, len(Hang) - 2)]) > solh:\n")],
  "an obstacle near the border of the terrain model", "the last points before the border cast no shadow", RAD + """
n = 9
H = np.full((n, n), 1000.0); H[1, 4] = 6000.0
m = np.full((n, n), np.nan); m[4, 4] = 1.0
la, lo = 0.04 - 0.01 * np.arange(n), 37 + 0.01 * np.arange(n)
assert rc.relshad(H, m, la, lo, 30.0, 0.0)[4, 4] == 0
""")
s("s38_geocentric", "C41", [(X, "    z = r_n * (1 - E2) * np.sin(lat_rad)\n", "    z = r_n * (1 - E2 * E2) * np.sin(lat_rad)\n")],
  "any latitude away from the equator", "points lie off the ellipsoid", """
import COSIPY as cs
p = cs.transform_coordinates((50.0, 10.0))[0]
assert abs((p[0] ** 2 + p[1] ** 2) / 6378.137 ** 2 + (p[2] / 6356.752314) ** 2 - 1) < 1e-6, p
""")
s("s39_static_gaps", "C42", [(ST, "                if np.isnan(ds.isel(lat=y, lon=x).to_array()).any():\n", "                if np.isnan(ds.isel(lat=y, lon=x).to_array()).all():\n")],
  "terrain data missing in one field inside the glacier", "gaps in the static fields go unnoticed", """
import types
sys.modules.setdefault("richdem", types.ModuleType("richdem"))
import xarray as xr
import cosipy.utilities.createStatic.create_static_file as c
ds = xr.Dataset({"MASK": (("lat", "lon"), np.ones((1, 2))), "HGT": (("lat", "lon"), np.array([[1.0, 2.0]])), "SLOPE": (("lat", "lon"), np.array([[1.0, np.nan]]))})
import warnings
warnings.simplefilter("ignore")
try:
    c.check_for_nan(ds)
except ValueError:
    pass
else:
    raise AssertionError("a missing slope inside the glacier was accepted")
""")
s("s40_static_coarse", "C42", [(ST, "        dem_path_tif = dem_path_tif_temp2\n", "        dem_path_tif_temp = dem_path_tif_temp2\n")],
  "aggregation to a coarser resolution", "the aggregated terrain is computed but not used", """
import types
sys.modules["richdem"] = types.ModuleType("richdem")
import cosipy.utilities.createStatic.create_static_file as c
cmds = []
class Stop(Exception):
    pass
def load(p):
    raise Stop
c.rd.LoadGDAL, c.rd.TerrainAttribute = load, None
c.os.system = cmds.append
cfg = types.SimpleNamespace(paths=dict(static_folder="s/", dem_path="d.tif", shape_path="o.shp", output_file="x.nc"),
    coords=dict(tile=False, aggregate=True, longitude_upper_left=1, latitude_upper_left=2, longitude_lower_right=3, latitude_lower_right=4, aggregate_degree=0.1))
c.load_config = lambda module_name: (None, cfg)
try:
    c.main()
except Stop:
    pass
conv = [x for x in cmds if "NETCDF" in x][0]
warped = [x for x in cmds if "gdalwarp -tr" in x][0].split()[-1]
assert warped in conv.split(), (cmds,)
""")
s("s41_missing_snow", "C23", [("cosipy/cpkernel/init.py", "        if np.isnan(initial_snowheight):\n            initial_snowheight = 0.0\n", "        if np.isnan(initial_snowheight):\n            initial_snowheight = initial_snowheight_constant\n")],
  "forcing with snow heights, missing at the cell", "bare ice starts with the configured snow pack", """
import types
from cosipy.constants import Constants
from cosipy.cpkernel.init import init_snowpack
class D(dict):
    def __getattr__(self, k): return self[k]
a = lambda v: types.SimpleNamespace(values=v)
g = init_snowpack(D(SNOWHEIGHT=a(np.array(np.nan)), T2=a(np.array([268.0]))))
assert g.get_total_snowheight() == 0.0, g.get_total_snowheight()
""")
s("s42_snow_warm_start", "C23", [("cosipy/cpkernel/init.py", "    temperature_top = np.minimum(DATA.T2.values[0], Constants.zero_temperature)\n", "    temperature_top = np.minimum(DATA.T2.values[-1], Constants.zero_temperature)\n")],
  "forcing whose temperature changes", "the column starts with the temperature of the last step", """
import types
from cosipy.cpkernel.init import init_snowpack
class D(dict):
    def __getattr__(self, k): return self[k]
a = lambda v: types.SimpleNamespace(values=v)
f = lambda t: np.array(init_snowpack(D(SNOWHEIGHT=a(np.array(1.0)), T2=a(np.array(t)))).get_temperature())
assert np.allclose(f([260.0, 250.0]), f([260.0, 270.0]))
""")
s("s43_lapse_pressure", "C30", [("cosipy/utilities/aws2cosipy/aws2cosipy.py", 'aggregates[name] = "sum"', 'aggregates[name] = "mean"')],
  "", "", None)
S.pop()
s("s44_diffuse_limit", "C31", [(R, "    if zeni > math.radians(zeni_thld):\n", "    if zeni > math.radians(zeni_thld) and Rm < 400.0:\n")],
  "a low sun with strong measured radiation", "the beam correction explodes near the horizon", RAD + """
r = rc.radCor2D(doy=100, zeni=1.55, azi=0.3, angslo=40.0, azislo=20.0, Rm=500.0, zeni_thld=85.0)
assert abs(r - 500.0) < 1e-9, r
""")
