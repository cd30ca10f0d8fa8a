"""The public interface of rockphypy as a generator of call specifications.

A call spec: {"f": "GM.softsand", "a": [value specs], "k": {name: value spec},
              "obj": {log name: value spec}}  ("obj" only for QI instance methods)

Parameter DSL (space separated):  name=lo:hi[flags]   flags: * may be an array, ! must be an array
   name={a,b,c}   one of the options        name=L(lo:hi)  list/array of the call's list length
   name=Lk(lo:hi) list of k                 name=C6/S6     6x6 stiffness / compliance
   name=A(lo:hi)  1-d array of the call's list length (array only)
"""
import random

FUN = {}


def _d(block, prefix):
    for line in block.strip().splitlines():
        line = line.strip()
        if not line or line.startswith("#"):
            continue
        name, _, rest = line.partition(" ")
        FUN[prefix + "." + name] = rest.split()


_d("""
V K=10:60* G=5:45* rho=1.8:2.8*
poi K=10:60* G=5:45*
lame K=10:60* G=5:45*
M_from_V den=1.8:2.8* vp=2000:6000* vs=900:3500*
write_HTI_matrix C11=20:100 C33=20:100 C13=5:20 C44=5:30 C55=5:30
write_VTI_compliance S11=.01:.05 S12=-.01:-.001 S13=-.01:-.001 S33=.01:.06 S44=.03:.2
write_VTI_matrix C11=20:100 C33=20:100 C13=5:20 C44=5:30 C66=5:30
write_matrix C11=20:100 C22=20:100 C33=20:100 C12=5:20 C13=5:20 C23=5:20 C44=5:30 C55=5:30 C66=5:30
write_iso K=10:60 G=5:45
crack_por crd=0:.1* alpha=.001:1*
v_to_c_VTI Vp0=3:5 Vp45=3:5 Vp90=3.5:5.5 Vs0=1.5:2.5 Vsh90=1.5:2.6 den=2:2.7
""", "utils")
_d("""
VRH volumes=L(.05:1) M=L(2:80)
cripor K0=20:80* G0=10:50* phi=0:.4* phic=.36:.5
cripor_reuss M0=10:60 Mf=1:3 phic=.3:.5 den={False,True}
HS f=0:1* K1=30:60* K2=5:25* G1=20:45* G2=2:15* bound={upper,lower}
Eshelby_Cheng K=20:60* G=10:45* phi=.001:.05* alpha=.01:.9* Kf=.5:3 mat={False,True}
hudson K=20:60 G=10:45 Ki=.5:3 Gi={0,.5} alpha=.001:.2 crd=.001:.1 order={1,2} axis={3,1}
hudson_rand K=20:60* G=10:45* Ki=.5:3 Gi={0,.5} alpha=.001:.2* crd=.001:.1*
hudson_ortho K=20:60 G=10:45 Ki=.5:3 Gi={0,.5} alpha=L3(.001:.2) crd=L3(.001:.1)
hudson_cone K=20:60 G=10:45 Ki=.5:3 Gi={0,.5} alpha=.001:.2 crd=.001:.1 theta=0:90
Berryman_sc K=L(2:80) G=L(1:45) X=L(.05:1) Alpha=L(.02:1.3)
PQ_vectorize Km=20:60 Gm=10:45 Ki=A(1:50) Gi=A(0:30) alpha=A(.002:1.6)
Berryman_func params=L2(10:50) K=A(2:60) G=A(1:45) X=A(.05:1) Alpha=A(.02:1.3)
Swiss_cheese Ks=20:60@ Gs=10:45@ phi=.01:.5*
SC phi=.01:.4* Ks=20:60* Gs=10:45* iter_n={1,2,10,0,40}
Dilute_crack Ks=20:60* Gs=10:45* cd=.001:.2*
OConnell_Budiansky K0=20:60* G0=10:45* crd=.001:.2*
OConnell_Budiansky_fl K0=25:60 G0=15:45 Kfl=.5:3 crd=.01:.15 alpha=.02:.5
OC_R_funcs params=L2(.1:.4) crd=.01:.2 nu_0=.05:.3 w=.01:.5
PQ Km=20:60 Gm=10:45 Ki=1:50 Gi=0:30 alpha=.002:2.5
DEM y=L2(5:50) t=0:.9 params=L3(.1:.9)
Berryman_DEM Km=25:60 Gm=15:45 Ki=.1:3 Gi={0,.5} alpha=.05:.9 phi=.03:.45
SC_dilute Km=25:60* Gm=15:45* Ki=1:20 Gi=0:12 f=.001:.2* mode={stress,strain}
SC_flex f=.01:.4* iter_n={2,1,20,0,60} Km=25:60* Ki=1:20 Gm=15:45 Gi=1:12
MT_average f=.01:.99* Kmat=20:60* Gmat=10:45* K1=20:60 G1=10:40 K2=2:19 G2=1:9
""", "EM")
_d("""
ThomasStieber phi_sand=.2:.4 phi_sh=.1:.3 vsh=0:1*
silty_shale C=0:1* Kq=30:40* Gq=40:46 Ksh=15:25 Gsh=5:9
shaly_sand phis=.2:.4 C=0:.2* Kss=10:30* Gss=8:20 Kcc=15:25 Gcc=5:9
contactcement K0=25:60* G0=20:46* Kc=25:60 Gc=20:46 phi=.001:.4* phic=.4:.5 Cn=5:12 scheme={1,2}
hertzmindlin K0=25:60* G0=20:46* phic=.36:.5 Cn=5:12 sigma=1:60* f=0:1
softsand K0=25:60 G0=20:46 phi=.001:.4* phic=.4:.5 Cn=5:12 sigma=1:60* f=0:1
Walton K0=25:60* G0=20:46* phic=.36:.5 Cn=5:12 sigma=1:60* f=0:1
johnson K0=25:60 G0=20:46 n=5:12 phi=.3:.4 epsilon=-.05:-.001 epsilon_axial=-.06:-.002 path={together,uni_iso,iso-uni}
stiffsand K0=25:60 G0=20:46 phi=.001:.4* phic=.4:.5 Cn=5:12 sigma=1:60* f=0:1
constantcement phi_b=.3:.39 K0=25:60 G0=20:46 Kc=25:60 Gc=20:46 phi=.001:.4* phic=.4:.5 Cn=5:12 scheme={2,1}
MUHS K0=25:60 G0=20:46 Kc=25:60 Gc=20:46 phi=.001:.4* phi_b=.25:.39 phic=.4:.5 Cn=5:12 scheme={1,2}
Digby K0=25:60 G0=20:46 phi=.3:.4 Cn=5:12 sigma=1:60 a_R=.001:.1
pcm f=.05:.95 sigma=1:60 K0=25:60 G0=20:46 phi=.001:.4* phic=.4:.5 v_cem=.01:.12 v_ci={.05,.11} Kc=25:60 Gc=20:46 Cn=5:12 mode={stiff,soft} scheme={2,1} f_=0:1
diluting k=.2:1 sigma0=10:50 sigma=0:60! m=.3:3
vpcm alpha=0:1* f=.05:.95 sigma=1:60* K0=25:60 G0=20:46 phi=.1:.4 phic=.4:.5 v_cem=.01:.12 v_ci={.05,.11} Kc=25:60 Gc=20:46 Cn=5:12 scheme={2,1} f_=0:1
""", "GM")
_d("""
Brie Kw=2:3* Kgas=.02:1.2* Sw=0:1* e={1,3,4,40}
Biot Kdry=5:20 Gdry=3:15 K0=30:60 Kfl=.5:3 rho0=2.5:2.8 rhofl=.7:1.2 eta=.01:.2 phi=.1:.35 kapa=.0005:.01 a=.005:.05 alpha=1:3 freq=.1:5000!
Biot_HF Kdry=5:20* Gdry=3:15* K0=30:60 Kfl=.5:3* rho0=2.5:2.8 rhofl=.7:1.2 phi=.1:.35* alpha=1:3
Geertsma_Smit_HF Kdry=5:20* Gdry=3:15* K0=30:60 Kfl=.5:3* rho0=2.5:2.8 rhofl=.7:1.2 phi=.1:.35* alpha=1:3
Geertsma_Smit_LF Vp0=2000:3000* Vpinf=3000:4000* freq=.1:5000* phi=.1:.35 rhofl=.7:1.2 kapa=.0005:.01 eta=.01:.2
Gassmann K_dry=5:20* G_dry=3:15* K_mat=30:60* Kf=.5:3* phi=.05:.4*
Gassmann_sub phi=.05:.4* K0=35:60 Ksat1=8:30* Kfl1=1:3 Kfl2=.1:1*
vels K_dry=5:20* G_dry=3:15* K0=30:60 D0=2.5:2.8 Kf=.5:3* Df=.7:1.2 phi=.05:.4*
Gassmann_vels Vp1=3:4* Vs1=1.5:2.2* rho1=2.1:2.5 rhofl1=.8:1.2 Kfl1=1:3 rhofl2=.1:.8 Kfl2=.1:1 K0=35:60 phi=.05:.4*
Gassmann_approx Msat1=20:50* M0=60:90 Mfl1=2:5 phi=.05:.4* Mfl2=.1:2*
Brown_Korringa_dry2sat Sdry=S6 K0=35:60 G0=30:46 Kfl=.5:3 phi=.05:.4
Brown_Korringa_sat2dry Ssat=S6 K0=35:60 G0=30:46 Kfl=.5:3 phi=.05:.4
Brown_Korringa_sub Csat=C6 K0=35:60 G0=30:46 Kfl1=1:3 Kfl2=.1:1 phi=.05:.4
Mavko_Jizba Vp_hs=4200:5000 Vs_hs=2500:3500 Vpdry=2500:4200* Vsdry=1300:2400* K0=35:60 rhodry=2:2.5 rhofl=.8:1.2 Kfl=.5:3 phi=.05:.3
Squirt_anisotropic Sdry=L5(.01:.1) Sdry_hp=L5(.01:.15)
White_Dutta_Ode Kdry=5:20 Gdry=3:15 K0=30:60 phi=.1:.35 rho0=2.5:2.8 rhofl1=.1:.8 rhofl2=.9:1.2 Kfl1=.1:1 Kfl2=2:3 eta1=.0005:.002 eta2=.001:.005 kapa=.001:.05 a=.0001:.01 sg=.05:.9 freq=.1:5000*
""", "Fluid")
_d("""
dz_dp P_pr=.5:10* T_pr=1:2*
pseudo_p_t P=5:90* T=20:150* G=.6:1.5*
rho_K_co2 P=5:90* T=20:150* G=.6:1.6
rho_K_gas P=5:90* T=20:150* G=.6:1.5
rho_K_oil P=5:90* T=20:150* den=.75:.95*
rho_K_go P=5:90* T=20:150* den=.75:.95 G=.6:1.5 Rg={None,85,120.5}
rho_K_water T=20:150* P=5:130*
v_water T=20:150* P=5:130*
rho_K_brine T=20:150* P=5:130* S=0:.3*
v_brine T=20:150* P=5:130* S=0:.3*
co2_brine temperature=20:150* pressure=5:130* salinity=0:.3 Sco2=0:1* brie_component={None,3,5} bw={False,True}
""", "BW")
_d("""
Thomsen C11=20:100* C33=20:100* C13=5:20 C44=5:15* C66=5:15 den=2:2.7 theta=0:90*
Thomsen_Tsvankin C11=20:100 C22=20:100 C33=20:100 C12=5:20 C13=5:20 C23=5:20 C44=5:15 C55=5:15 C66=5:15
Backus V=L(.05:1) lamda=L(5:30) G=L(5:30)
Backus_log Vp=L(2.5:5) Vs=L(1.2:2.6) Den=L(2:2.7) Depth=D(1000:4000)
vel_azi_HTI C=C6 Den=2:2.7 azimuth=0:90*
vel_azi_VTI C=C6 Den=2:2.7 azimuth=0:90*
Bond_trans C=C6 theta=0:180 axis={3,1}
""", "Anisotropy")
_d("""
AVO_HTI D1=2:2.5 D2=2:2.6 C1=C6 C2=C6 theta=0:40* azimuth=0:90*
Aki_Richards theta=0:40* vp1=2000:3000@ vp2=2500:4000@ vs1=900:1500@ vs2=1100:2000@ den1=2:2.4@ den2=2.1:2.6@
zoeppritz vp1=2000:3000 vs1=900:1500 rho1=2:2.4 vp2=2500:4000 vs2=1100:2000 rho2=2.1:2.6 theta=0:40*
AVO_abe vp1=2000:3000* vs1=900:1500* d1=2:2.4* vp2=2500:4000* vs2=1100:2000* d2=2.1:2.6*
EI_ref Vp=2000:4000@ Vs=900:2000@ rho=2:2.6@ theta=0:40* SP=.3:.6 norm={True,False}
AVO_ortho a1=2.5:3.5 b1=1:1.8 e11=0:.1 d11=0:.1 e12=0:.1 d12=0:.1 g1=0:.1 rho1=2:2.4 a2=3:4 b2=1.2:2.2 e21=0:.1 d21=0:.1 e22=0:.1 d22=0:.1 g2=0:.1 rho2=2.1:2.6 the=0:40*
""", "AVO")
_d("""
krief phi=.01:.4* Kg=30:60* Gg=20:46
esti_VS Vp=2000:6000* vsh=0:1*
han phi=.05:.3* C=0:.4*
ehrenberg Z=500:5000*
yu_segment_trend Z=500:5000!
ramm_porosity Z=500:5000* HB={True,False}
ramm_porosity_segment Z=500:5000!
empirical_StPeter Pe=.01:.5* sample={1,2}
Scherbaum Z=500:5000*
Sclater phi=.05:.48*
Storvoll Z=500:5000*
Hillis Z=500:5000*
Japsen Z=500:5200!
hjelstuen Z=500:5000*
Cp phi=.2:.5*
""", "Empirical")
_d("""
Kozeny_Carman phi=.05:.4* d=50:500*
Kozeny_Carman_Percolation phi=.05:.4* phic=.01:.04 d=50:500* B=5:20
Owolabi phi=.05:.4* Swi=.05:.6*
Perm_logs phi=.05:.4* Swi=.05:.6*
Panda_Lake d=50:500* C=.5:2 S=.1:2 tau=1:4 phi=.05:.4*
Panda_Lake_cem phi=.05:.4* d=50:500*
Revil phi=.05:.4* d=50:500*
Fredrich phi=.05:.4* d=50:500* b=1:4
Bloch S=1:3* C=50:95* D=.05:.5*
Bernabe phi=.05:.4* crf=.05:.5* w=.1:2 r=1:10*
""", "Permeability")
_MIN = "Dqz=2.6:2.7 Kqz=34:38 Gqz=42:46 Dsh=2.4:2.6 Ksh=15:25 Gsh=5:9 Dc=2.6:2.7 Kc=34:38 Gc=42:46 Db=.95:1.1 Kb=2:2.8"
_d(f"""
matrix_modulus vsh={{0,.1,.25}} phi_c=.36:.42 phi_0=.01:.35! M_sh=15:25 M_g=30:40 M_c=30:40
den_matrix vsh=0:.3 phi_c=.36:.42 phi_0=.01:.35* den_sh=2.4:2.6 den_g=2.6:2.7 den_c=2.6:2.7
screening {_MIN} phib_p=.3:.36 phi_c=.38:.42 sigma=10:40 vsh={{0,.1,.25}} scheme={{2,1}} f=0:1 Cn=6:10
normalize density=M(0:3)
cst_vels phi_b=.33:.39 K0=30:38 D0=2.6:2.7 G0=38:46 phi=.01:.4! phi_c=.4:.42 Cn=6:10 Kc=34:38 Gc=42:46 Db=.95:1.1 Kb=2:2.8 scheme={{2,1}} vsh=0:.2 Dsh=2.4:2.6 Dqz=2.6:2.7 Dc=2.6:2.7
cst_plot {_MIN} phib=.3:.36 phib_p=L3(.3:.39) phi_c=.4:.42 sigma=10:40 vsh={{0,.1}} Cn=6:10 scheme={{2,1}} f=0:1
cal_v_const {_MIN} phi_b=.33:.39 phi_c=.4:.42 vsh=0:.2 phi=.02:.39* scheme={{2,1}}
plot_rpt Kdry=5:20@ Gdry=3:15@ K0=33:38 D0=2.6:2.7 Kb=2:2.8 Db=.95:1.1 Khc=.05:1 Dhc=.1:.8 phi=.05:.35! sw=W(0:1)
screening_plot phi=.01:.4@ vp1=1500:3000@ vp2=3000:5500@ vp3=2000:4500@ cmap={{-,viridis,jet}}
kde_plot phi=.01:.4@ v1=1500:3000@ v2=3000:5500@ v3=2000:4500@ cmap={{-,viridis}} vels={{Vp,Vs}} n={{16,32}}
estimate_cem vcem_seeds=SEEDS Kqz=34:38 Gqz=42:46 Ksh=15:25 Gsh=5:9 phi_c=.39:.42 Cn=6:10 Kc=34:38 Gc=42:46 Db=.95:1.1 Kb=2:2.8 scheme={{2,1}} vsh=0:.1 Dsh=2.4:2.6 Dqz=2.6:2.7 Dc=2.6:2.7
cement_diag_plot vcem=VCEM {_MIN} phib=.3:.36 phib_p=L3(.3:.39) phi_c=.4:.42 sigma=10:40 vsh={{0,.1}} Cn=6:10 scheme={{2,1}} f=0:1
""", "QI")
QI_METHODS = {"QI.screening_plot", "QI.kde_plot", "QI.estimate_cem", "QI.cement_diag_plot"}
PLOTS = {"QI.screening_plot", "QI.kde_plot", "QI.cement_diag_plot", "QI.cst_plot", "QI.plot_rpt"}
SOLVERS = {"EM.Berryman_sc", "EM.Berryman_DEM", "EM.OConnell_Budiansky_fl", "GM.Digby",
           "EM.Berryman_func", "EM.OC_R_funcs", "EM.DEM", "EM.PQ", "EM.PQ_vectorize",
           "EM.SC", "EM.SC_flex"}
PRESSURE = {"BW.rho_K_water", "BW.v_water", "BW.rho_K_brine", "BW.v_brine", "BW.co2_brine"}
NAMES = sorted(FUN)
SIZES = [1, 2, 3, 4, 5, 7, 8, 12, 16, 33, 64, 100, 130, 257, 1200, 5000]
_W = [3, 3, 5, 5, 5, 5, 4, 4, 4, 3, 3, 3, 2, 2, 2, 1]
# trailing parameters that have defaults
DEFAULTS = {"AVO.EI_ref": 1, "Anisotropy.Bond_trans": 1, "BW.co2_brine": 2, "EM.Eshelby_Cheng": 1, "EM.HS": 1,
            "EM.cripor_reuss": 1, "EM.hudson": 2, "Empirical.empirical_StPeter": 1, "Empirical.ramm_porosity": 1,
            "GM.johnson": 1, "QI.screening_plot": 1}


MAXLEN = {"AVO.EI_ref": 130, "AVO.Aki_Richards": 130, "AVO.AVO_HTI": 130, "EM.Swiss_cheese": 130}    # outer products


def _num(x):
    if x in ("True", "False", "None"):
        return {"True": True, "False": False, "None": None}[x]
    try:
        return int(x)
    except ValueError:
        try:
            return float(x)
        except ValueError:
            return x


def _rnd(r, lo, hi):
    x = r.uniform(lo, hi)
    return round(x, r.choice((2, 3, 4, 6, 12))) or x


def parse(tok):
    name, _, rhs = tok.partition("=")
    if rhs.startswith("{"):
        return name, "opt", [_num(x) for x in rhs[1:-1].split(",")]
    if rhs in ("C6", "S6", "SEEDS", "VCEM"):
        return name, rhs, None
    for pre in ("L", "A", "D", "M", "W"):
        if rhs.startswith(pre) and "(" in rhs:
            k, _, rr = rhs.partition("(")
            lo, hi = rr[:-1].split(":")
            return name, k, (float(lo), float(hi))
    flag = rhs[-1] if rhs[-1] in "*!@" else ""
    lo, hi = rhs.rstrip("*!@").split(":")
    return name, "num" + flag, (float(lo), float(hi))


PARAMS = {f: [parse(t) for t in toks] for f, toks in FUN.items()}


def _arr(r, lo, hi, n, swarm, table=False):
    if table:                    # a column of a table whose rows may be labelled differently from the others'
        return {"t": "ser", "a": {"t": "arr", "g": ["rng", r.randrange(1 << 30), lo, hi], "n": n},
                "idx": r.choice(("range", "range", "off", "rev"))}
    g = r.random()
    if g < .45:
        a, b = sorted((_rnd(r, lo, hi), _rnd(r, lo, hi)))
        spec = {"t": "arr", "g": ["lin", a, b], "n": n}
    else:
        spec = {"t": "arr", "g": ["rng", r.randrange(1 << 30), lo, hi], "n": n}
    form = r.choices(("C", "str", "ro", "neg", "ser", "f4", "list", "2d", "mm", "be", "view"),
                     (56, 6, 8, 4, 8, 3, 2, 3, 2, 1, 3) if swarm else (87, 2, 4, 1, 2, 1, 0, 0, 1, 1, 1))[0]
    if form in ("str", "ro", "neg", "mm", "be", "view"):
        spec["lay"] = form
    elif form == "ser":
        return {"t": "ser", "a": spec, "idx": r.choice(("range", "range", "off", "rev"))}
    elif form == "f4":
        spec["dtype"] = "float32"
    elif form == "2d" and n % 2 == 0:
        spec["shape"] = [2, n // 2]
        if r.random() < .4:
            spec["lay"] = "F"
    elif form == "list":
        return {"t": "list", "v": [_rnd(r, lo, hi) for _ in range(min(n, 6))]}
    return spec


def _scalar(r, lo, hi, swarm):
    x = _rnd(r, lo, hi)
    g = r.random()
    if swarm and g < .05:
        return {"t": "np", "v": x, "dtype": r.choice(("float64", "float64", "float32"))}
    if swarm and g < .10 and hi - lo >= 2:
        return int(round(x))
    if swarm and g < .12:
        return {"t": "arr", "g": ["val", [x]], "n": 1, "lay": "0d"}
    return x


def _mat(r):
    return [round(r.uniform(60, 110), 3), round(r.uniform(40, 100), 3), round(r.uniform(5, 15), 3),
            round(r.uniform(12, 25), 3), round(r.uniform(15, 28), 3)]


def _listspec(r, lo, hi, k, arr_only, swarm):
    g = r.random()
    if arr_only or g < .45:
        s = {"t": "arr", "g": ["rng", r.randrange(1 << 30), lo, hi], "n": k}
        if swarm and r.random() < .15:
            s["lay"] = r.choice(("ro", "str", "neg", "mm", "view"))
        return s
    v = [_rnd(r, lo, hi) for _ in range(k)]
    if lo >= 5 and r.random() < .2:
        v = [int(round(x)) for x in v]
    return {"t": "list", "v": v}


def make_obj(r, n=None, swarm=True):
    n = n or r.choice((5, 8, 12, 20, 40))
    ser = r.random() < .5
    def log(lo, hi):
        a = {"t": "arr", "g": ["rng", r.randrange(1 << 30), lo, hi], "n": n}
        if ser:
            return {"t": "ser", "a": a, "idx": "range"}
        if swarm and r.random() < .15:
            a["lay"] = "ro"
        return a
    out = {"Vp": log(2200, 5200), "phi": log(.05, .36), "Vsh": log(0, .5), "Vs": log(1100, 3000)}
    if r.random() < .3:
        out.update(den=log(2.0, 2.6), eff_stress=log(5, 40), TVD=log(800, 4000))
    return out


def gen_call(r, f, opts=None, swarm=True, n=None, vec=None):
    """One random call of function f. opts: forced option values."""
    n = min(n or r.choices(SIZES, _W)[0], MAXLEN.get(f, 5000))
    k = r.choice((2, 2, 3, 4, 6))
    single = r.random() < .5     # exactly one vectorised argument?
    params = PARAMS[f]
    stars = [p[0] for p in params if p[1] == "num*"]
    vecset = set()
    table = bool(stars) and vec is None and r.random() < .05
    if table:
        vecset = {s for s in stars if r.random() < .85}
    elif stars:
        if vec is not None:
            vecset = set(vec)
        elif r.random() < .8:
            vecset = {r.choice(stars)} if single else {s for s in stars if r.random() < .6}
    atall = r.random() < .7      # '@' parameters: all arrays or all scalars
    if f in PLOTS:
        atall, n = True, min(n, 100) if n > 1 else 5
    args = []
    obj = None
    if f in QI_METHODS:
        obj = make_obj(r, swarm=swarm)
    for name, kind, rg in params:
        if kind == "opt":
            v = opts[name] if opts and name in opts else r.choice(rg)
            if v == "-":
                break            # leave this and the following parameters to their defaults
            args.append({"t": "cmap", "v": v} if name == "cmap" and r.random() < .4 else v)
        elif kind == "num":
            args.append(_scalar(r, *rg, swarm))
        elif kind == "num*":
            args.append(_arr(r, *rg, n, swarm, table) if name in vecset else _scalar(r, *rg, swarm))
        elif kind == "num!":
            a = _arr(r, *rg, n, swarm, table)
            args.append(a)
        elif kind == "num@":
            args.append({"t": "arr", "g": ["rng", r.randrange(1 << 30), *rg], "n": n} if atall
                        else _scalar(r, *rg, False))
        elif kind == "W":
            args.append({"t": "arr", "g": ["lin", 0, 1], "n": r.choice((3, 5))})
        elif kind in ("C6", "S6"):
            args.append({"t": "arr", "g": ["mat6" if kind == "C6" else "inv6", _mat(r)], "n": 36})
            if swarm and r.random() < .2:
                args[-1]["lay"] = r.choice(("ro", "F", "str"))
        elif kind == "L":
            args.append(_listspec(r, *rg, k, False, swarm))
        elif kind == "A":
            args.append(_listspec(r, *rg, k, True, swarm))
        elif kind == "D":
            s = {"t": "arr", "g": ["lin", rg[0] + r.randrange(500), rg[1]], "n": k + 1}
            args.append(s)
        elif kind == "M":
            m = r.choice((4, 8))
            args.append({"t": "arr", "g": ["rng", r.randrange(1 << 30), *rg], "n": m * m, "shape": [m, m]})
        elif kind == "SEEDS":
            v = r.choice(([0, .005, .01, .02, .03, .04, .1], [0, .01, .03, .1], [.001, .02, .05, .08, .1]))
            args.append({"t": "arr", "g": ["val", v], "n": len(v)} if r.random() < .7 else {"t": "list", "v": list(v)})
        elif kind == "VCEM":
            nn = _objlen(obj)
            args.append({"t": "arr", "g": ["rng", r.randrange(1 << 30), 0, .1], "n": nn})
        elif kind.startswith("L"):
            args.append(_listspec(r, *rg, int(kind[1:]), False, swarm))
        else:
            raise ValueError(kind)
    # aspect ratios: exact 1 is a branch of its own
    if f in ("EM.PQ_vectorize", "EM.Berryman_sc", "EM.Berryman_func") and r.random() < .5:
        a = args[-1]
        if a["t"] == "list":
            a["v"][r.randrange(len(a["v"]))] = r.choice((1, 1.0))
        else:
            a["ed"] = [[r.randrange(k), 1.0]]
    if f in ("EM.PQ", "EM.Berryman_DEM") and r.random() < .25:
        args[4] = r.choice((1, 1.0))
    if f in DEFAULTS and len(args) == len(params) and not opts and r.random() < .15:
        args = args[:len(args) - r.randint(1, DEFAULTS[f])]
    call = {"f": f, "a": args}
    if obj is not None:
        call["obj"] = obj
    # sometimes by keyword
    if swarm and r.random() < .12 and obj is None:
        cut = r.randrange(len(args) + 1)
        names = [p[0] for p in params]
        call["k"] = {names[i]: args[i] for i in range(cut, len(args))}
        call["a"] = args[:cut]
    if f in PRESSURE and r.random() < .5:
        _force_pressure(r, call)
    return call


def _objlen(obj):
    s = obj["Vp"]
    return s["a"]["n"] if s["t"] == "ser" else s["n"] if s["t"] == "arr" else len(s["v"])


def pressure_of(call):
    names = [p[0] for p in PARAMS[call["f"]]]
    i = names.index("pressure" if "pressure" in names else "P")
    return ("a", i) if i < len(call["a"]) else ("k", names[i])


def _force_pressure(r, call):
    """Put the pressure clearly on one side of (or exactly at) the 100 MPa limit."""
    where, i = pressure_of(call)
    v = call[where][i]
    mode = r.choice(("low", "high", "one", "edge"))
    lo, hi = {"low": (5, 99), "high": (101, 130), "one": (5, 99), "edge": (100, 100)}[mode]
    if isinstance(v, dict) and v["t"] in ("arr", "ser"):
        a = v["a"] if v["t"] == "ser" else v
        if a.get("lay") == "0d":
            return
        a["g"] = ["lin", lo, hi] if lo != hi else ["lin", 5, 100]
        if mode == "one" and a["n"]:
            a["ed"] = [[r.randrange(a["n"]), 100.0001 if r.random() < .5 else 118.5]]
        if a["n"] and r.random() < .15:
            a.setdefault("ed", []).append([r.randrange(a["n"]), "nan"])
    elif not isinstance(v, dict):
        call[where][i] = r.choice((100, 100.0, 100.5, 99.9, 101)) if mode == "edge" else _rnd(r, lo, hi)


def option_combos(f):
    """All combinations of the option parameters of f (bounded)."""
    out = [{}]
    for name, kind, rg in PARAMS[f]:
        if kind == "opt":
            out = [dict(o, **{name: v}) for o in out for v in rg]
    return out[:8]


# ---------------------------------------------------------------- variants
def _walk(call):
    """Paths of all numeric leaves / arrays of a call."""
    out = []

    def w(x, path):
        if isinstance(x, bool) or x is None or isinstance(x, str):
            return
        if isinstance(x, (int, float)):
            out.append((path, "num"))
        elif isinstance(x, dict):
            t = x.get("t")
            if t == "arr":
                out.append((path, "arr"))
            elif t == "ser":
                out.append((path + ["a"], "arr"))
            elif t == "np":
                out.append((path + ["v"], "num"))
            elif t in ("list", "tup"):
                for i, y in enumerate(x["v"]):
                    w(y, path + ["v", i])
    for i, x in enumerate(call["a"]):
        w(x, ["a", i])
    for k, x in call.get("k", {}).items():
        w(x, ["k", k])
    for k, x in call.get("obj", {}).items():
        w(x, ["obj", k])
    return out


def _get(o, path):
    for p in path:
        o = o[p]
    return o


def _set(o, path, v):
    for p in path[:-1]:
        o = o[p]
    o[path[-1]] = v


def _copy(x):
    if isinstance(x, dict):
        return {k: _copy(v) for k, v in x.items()}
    if isinstance(x, list):
        return [_copy(v) for v in x]
    return x


def variant(r, call, kind=None):
    """A call close to `call`: what a cache, buffer or key of the wrong granularity would confuse."""
    c = _copy(call)
    leaves = _walk(c)
    if not leaves:
        return c
    kind = kind or r.choice(("tiny", "tiny", "scal", "mid", "swap", "rev", "vals", "vals", "dtype", "size",
                             "type", "opt", "lay", "first", "last", "ser"))
    arrs = [p for p, t in leaves if t == "arr"]
    nums = [p for p, t in leaves if t == "num"]
    if kind == "tiny":
        e = r.choice((1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 1e-7, 3e-9))
        p, t = r.choice(leaves)
        v = _get(c, p)
        if t == "num":
            _set(c, p, v * (1 + e) if v else e)
        else:
            v["tr"] = v.get("tr", []) + [["mul", 1 + e]]
    elif kind == "scal" and nums:
        p = r.choice(nums)
        v = _get(c, p)
        _set(c, p, v * r.choice((.9, 1.07, 1.2)) if v else .05)
    elif kind in ("mid", "first", "last") and arrs:
        v = _get(c, r.choice(arrs))
        i = {"mid": v["n"] // 2, "first": 0, "last": v["n"] - 1}[kind]
        v["tr"] = v.get("tr", []) + [["scl", i, r.choice((.93, 1.04))]]
    elif kind in ("swap", "rev") and arrs:
        v = _get(c, r.choice(arrs))
        v["tr"] = v.get("tr", []) + [kind]
    elif kind == "dtype" and arrs:
        v = _get(c, r.choice(arrs))
        v["dtype"] = "float32" if v.get("dtype", "float64") == "float64" and v.get("lay") not in ("str", "neg", "rostr") else "float64"
    elif kind == "lay" and arrs:
        v = _get(c, r.choice(arrs))
        if v.get("lay") != "0d":
            v["lay"] = r.choice(("C", "str", "ro", "neg", "mm", "view"))
            if v.get("dtype") == "float32" and v["lay"] in ("str", "neg"):
                v["lay"] = "ro"
    elif kind == "ser" and arrs:         # tables whose row labels differ
        for p in arrs:
            if p[0] != "obj" and len(p) == 2 and r.random() < .7:
                v = _get(c, p)
                if v["g"][0] in ("lin", "rng") and "shape" not in v and v.get("lay", "C") in ("C", "view", "str"):
                    v = {k: x for k, x in v.items() if k != "lay"}
                    _set(c, p, {"t": "ser", "a": v, "idx": r.choice(("range", "off", "rev"))})
            elif p[-1] == "a" and p[0] != "obj" and r.random() < .7:
                _get(c, p[:-1])["idx"] = r.choice(("range", "off", "rev"))
    elif kind == "size" and arrs:
        old = _get(c, arrs[0])["n"]
        new = max(1, r.choice((old + 1, 2 * old, old - 1, old // 2)))
        if _get(c, arrs[0])["g"][0] in ("lin", "rng") and call["f"] not in PLOTS and not c.get("obj"):
            for p in arrs:
                v = _get(c, p)
                if v["n"] == old and v["g"][0] in ("lin", "rng", "log") and "shape" not in v:
                    v["n"] = new
    elif kind == "type" and nums:
        p = r.choice(nums)
        v = _get(c, p)
        if len(p) == 2 and p[0] == "a":
            _set(c, p, {"t": "np", "v": v, "dtype": "float64"} if r.random() < .5 else
                 (int(v) if float(v).is_integer() else float(v)))
    elif kind == "opt":
        names = [q[0] for q in PARAMS[call["f"]]]
        opts = [(i, q) for i, q in enumerate(PARAMS[call["f"]]) if q[1] == "opt"]
        if opts:
            i, q = r.choice(opts)
            v = r.choice([x for x in q[2] if x != "-"])
            if i < len(c["a"]):
                c["a"][i] = v
            elif names[i] in c.get("k", {}):
                c["k"][names[i]] = v
    else:                        # "vals": fresh values, same shapes and forms
        for p, t in leaves:
            v = _get(c, p)
            if t == "num":
                if isinstance(v, float) and r.random() < .8:
                    _set(c, p, v * r.uniform(.85, 1.1))
            elif v["g"][0] == "rng":
                v["g"][1] = r.randrange(1 << 30)
            elif v["g"][0] == "lin" and call["f"] not in ():
                v["g"][2] = v["g"][2] * r.uniform(.8, 1.0)
            elif v["g"][0] in ("mat6", "inv6"):
                v["g"][1] = _mat(r)
    return c


def bad_call(r, call):
    """A call that fails by itself: wrong type, missing argument, unusable option, clashing shapes."""
    c = _copy(call)
    k = r.choice(("str", "none", "missing", "shape", "opt", "extra", "objarr"))
    if k == "missing" and c["a"]:
        c["a"] = c["a"][:-1]
    elif k == "extra":
        c["a"] = c["a"] + [1, 2, 3, 4, 5, 6]
    elif k == "shape":
        p = [p for p, t in _walk(c) if t == "arr" and p[0] != "obj"]
        if p:
            v = _get(c, r.choice(p))
            if v["g"][0] in ("lin", "rng") and "shape" not in v:
                v["n"] = v["n"] + 3
        elif c["a"]:
            c["a"][-1] = None
    elif c["a"]:
        i = r.randrange(len(c["a"]))
        c["a"][i] = {"str": "oops", "none": None, "opt": "bogus",
                     "objarr": {"t": "list", "v": ["x", None]}}.get(k)
    return c


def family(r, f, size=8, swarm=True, opts=None, base=None):
    base = base or gen_call(r, f, opts=opts, swarm=swarm)
    out = [base]
    while len(out) < size:
        g = r.random()
        src = base if r.random() < .7 else r.choice(out)
        if g < .70:
            out.append(variant(r, src))
        elif g < .80:
            out.append(gen_call(r, f, opts=opts, swarm=swarm))
        elif g < .88:
            out.append(gen_call(r, f, swarm=swarm))
        elif g < .95:
            out.append(bad_call(r, src))
        else:
            out.append(variant(r, src, "vals"))
    return out
