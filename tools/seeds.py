SEEDS = []


def S(id, property, edits, needs, breaks, demo, count=1):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, count=count))


S("c01-memo", "C01", [("materials.py", '''        if not type(k) == np.ndarray:
            epsilon = 1
        else:
            epsilon = np.ones(k.shape)
        for params in self.e_properties:
            wP, wR, gamma = [p/self.omega_norm for p in params]
            lorentz = wP**2/(wR**2 + k**2 + gamma*k)
            epsilon = epsilon+lorentz
        return epsilon
''', '''        if not type(k) == np.ndarray:
            epsilon = 1
        else:
            # every Mie coefficient asks for the same wavenumbers several times
            if getattr(self, "_last", (None,))[0] is k:
                return self._last[1]
            epsilon = np.ones(k.shape)
        for params in self.e_properties:
            wP, wR, gamma = [p/self.omega_norm for p in params]
            lorentz = wP**2/(wR**2 + k**2 + gamma*k)
            epsilon = epsilon+lorentz
        if type(k) == np.ndarray:
            self._last = (k, epsilon)
        return epsilon
''')], "two evaluations with the same array object whose contents changed in between (or whose result was modified)",
  "permittivity of a stale argument is returned; evaluation changes the material", '''
import numpy as np, materials
m = materials.LorentzMaterial([(1.37e16, 0, 5.77e13)], ())
k = np.array([0.5, 1.0])
m.epsilon(k)
k *= 2
assert np.allclose(m.epsilon(k), m.epsilon(k.copy()), rtol=1e-12, atol=0)
''')

S("c01-smallk", "C01", [("materials.py", '''            lorentz = wP**2/(wR**2 + k**2 + gamma*k)
''', '''            lorentz = wP**2/(wR**2 + k*(k + gamma if wR == 0 else k))
''')], "an oscillator with non-zero resonance and non-zero damping", "damping of Lorentz oscillators with finite resonance is ignored", '''
import numpy as np, materials
m = materials.LorentzMaterial([(1e15, 2e15, 5e14)], ())
k = 3.0
wp, wr, g = 1e15/2.998e14, 2e15/2.998e14, 5e14/2.998e14
assert abs(m.epsilon(k) - (1 + wp**2/(wr**2+k**2+g*k))) < 1e-12
''')

S("c04-cfterms", "C04", [("bessel_sk.py", '''    Nmax = 80
    if x.max() > 100:
        Nmax = 140
''', '''    # the continued fraction converges quickly for large orders
    Nmax = max(12, int(80 - nu))
    if x.max() > 100:
        Nmax = 140
''')], "orders above about 40 with arguments of 30..100", "the ratio of regular functions is taken from a continued fraction that is too short", '''
import numpy as np, bessel_sk
x = np.array([60.0, 95.0])
for nu in (0.5, 40.5, 66.5):
    f = bessel_sk.fnu(x, nu)
    for i, xx in enumerate(x):
        r = 0.0
        for n in range(400, 0, -1):
            b = 2*(nu+n)/xx
            r = b if r == 0 else b + 1/r
        assert abs(f[i]-r) < 1e-9*r, (nu, xx, f[i], r)
''')

S("c04-window", "C04", [("bessel_sk.py", '''    lninu, lnknu = lniknu(kr, lmax)
    return lninu[:, lmin::], lnknu[:, lmin::]
''', '''    lninu, lnknu = lniknu(kr, lmax)
    nl = lmax-lmin+1
    return lninu[:, -nl::], lnknu[:, max(lmin, 1)-1::] if lmin == 1 else lnknu[:, lmin::]
''')], "an order window starting at 1", "the window of irregular functions starts one order too early", '''
import numpy as np, bessel_sk
x = np.array([0.3, 2.0])
i, k = bessel_sk.mie_bessels(x, 1, 4)
assert k.shape == (2, 4)
assert np.allclose(k, bessel_sk.lnknu(x, 4)[:, 1:])
''')

S("c05-negm", "C05", [("cython_gaunt.pyx", "    if abs(m) > min(l, lp):", "    if m > min(l, lp):")],
  "a negative m below -min(l, l')", "coefficients that must vanish are garbage", '''
import numpy as np
from cython_gaunt import gaunt
for l, lp, m in ((1, 3, -2), (2, 2, -3), (4, 1, -4)):
    g = gaunt(l, lp, m)
    assert len(g) == min(l, lp) + 1 and (np.asarray(g) == 0).all(), (l, lp, m, g)
''')

S("c06-dispersion", "C06", [("translation.py", '''        nL = (self.k*self.L*np.sqrt(self.medium.epsilon(self.k)))[:, np.newaxis]
''', '''        nL = (self.k*self.L*np.sqrt(self.medium.epsilon(self.k[0])))[:, np.newaxis]
''')], "a dispersive medium, m>0 and more than one wavenumber", "polarisation mixing uses the refractive index of the first wavenumber for all", '''
import numpy as np
from translation import translation
import materials
m = materials.LorentzMaterial([(9e15, 1.4e15, 0)], ())
k = np.array([0.1, 8.0])
a = translation(3, 3, 1, m, 1.5, k, 1, 0).trans_ab()
b = translation(3, 3, 1, m, 1.5, k[1:], 1, 0).trans_ab()
for x, y in zip(a, b):
    assert np.allclose(x[1:], y, rtol=1e-10)
''')

S("c08-mu", "C08", [("scattering.py", '''        mie_te = ( (mu_e*kd_i - mu_i*kd_e) /
                   (mu_e*id_i - mu_i*kd_e) 
                  )*prefak
''', '''        mie_te = ( (mu_e*kd_i - mu_i*kd_e) /
                   (mu_i*id_i - mu_e*kd_e) 
                  )*prefak
''')], "internal scattering with different permeabilities", "the TE field is not continuous for magnetic walls", '''
import numpy as np
from scattering import scattering
class M:
    is_perfect_conductor = False
    def __init__(s, e, m): s.e, s.m = e, m
    def epsilon(s, k): return s.e*np.ones(k.shape)
    def mu(s, k): return s.m*np.ones(k.shape)
k = np.array([0.7])
a = scattering(M(2., 3.), M(5., 1.5)).mie_internal(k, 1, 3, 1.2)
b = scattering(M(3., 2.), M(1.5, 5.)).mie_internal(k, 1, 3, 1.2)
assert np.allclose(a[0], b[1], rtol=1e-10) and np.allclose(a[1], b[0], rtol=1e-10)
''')

S("c09-drude", "C09", [("scattering.py", '''                bTE = -(l+1)*(mu0_sp-mu0_md)/(l*(mu0_sp+mu0_md)+mu0_md)
''', '''                bTE = -(l+1)*(mu0_sp-mu0_md)/(l*(mu0_sp+mu0_md)+mu0_sp)
''')], "a magnetic sphere", "static TE coefficient of magnetic spheres is wrong", '''
import numpy as np
from scattering import scattering
import materials
s = scattering(materials.LorentzMaterial([(1e15, 2e15, 0)], (4., 1e14)), materials.Vacuum)
a = s.mie_k0(1, 4, 1.0)
k = np.array([1e-4])
b = s.mie(k, 1, 4, 1.0)
l = np.arange(1, 5)
st = a[0]*np.exp(a[2])
fi = b[0][0]*np.exp(b[2][0] - (2*l+1)*np.log(k))
assert np.allclose(st, fi, rtol=2e-2), (st, fi)
''')

S("c10-layers", "C10", [("stratified_sphere_scattering.py", '''            mat2, mat3 = self.mat_list[i], self.mat_list[i+1]
''', '''            mat2, mat3 = self.mat_list[i], self.mat_list[-1]
''')], "two or more coatings", "inner layers are matched to the surrounding medium in place of the next layer", '''
import numpy as np
from stratified_sphere_scattering import StratifiedMieScattering as S
import materials
k = np.array([0.5, 2.0])
A, B, C, V = materials.Gold, materials.Polystyrene, materials.Silicon, materials.Vacuum
a = S([A, B, C, C, V], [0.5, 0.8, 0.9, 1.0]).mie_stratified(k, 1, 3)
b = S([A, B, C, V], [0.5, 0.8, 1.0]).mie_stratified(k, 1, 3)
assert np.allclose(a[:2], b[:2], rtol=1e-6)
''')

S("c10-inner", "C10", [("scattering.py", '''        exp1 = np.exp((kv_i - iv_i)[:, 1:] + inner_scale)

        id_i''', '''        exp1 = np.exp((kv_i - iv_i)[:, 1:] + inner_scale[0])

        id_i''')], "more than one wavenumber", "the coated sphere uses the scaling of the first wavenumber for all", '''
import numpy as np
from scattering import coated_miescattering as S
import materials
s = S(materials.Gold, materials.Polystyrene, materials.Vacuum)
k = np.array([0.5, 2.0])
a, b = s.mie_coated(k, 1, 3, 0.6, 1.0), s.mie_coated(k[1:], 1, 3, 0.6, 1.0)
assert np.allclose(a[:, 1:], b, rtol=1e-10)
''')

S("c11-cond", "C11", [("geometry.py", '''        condition = np.logical_not(np.logical_and(lss>=l1, lss>=l2))
''', '''        condition = np.logical_not(lss >= l1) * np.ones(l2.shape, dtype=bool)
''')], "internal geometry at zero frequency", "terms with an intermediate order below l2 are kept", '''
import numpy as np
from geometry import SphereSphere
import materials
g = SphereSphere(1.0, 3.0, 1.0, materials.Gold, materials.Gold, materials.Vacuum, lmax=3, lssmax=5)
A, B = g.blockmatrices_k0(0)
assert np.allclose(B, B.T*(B[0,1]/B[1,0] if False else 1), rtol=1e9)
d = np.array([[abs(B[i,j]*B[j,i]) for i in range(3)] for j in range(3)])
h = SphereSphere(1.0, 3.0, 1.0, materials.Gold, materials.Gold, materials.Vacuum, lmax=3, lssmax=5)
k = np.array([1e-6])
C = h.blockmatrices(0, k)[3][0]
e = np.array([[abs(C[i,j]*C[j,i]) for i in range(3)] for j in range(3)])
assert np.allclose(d, e, rtol=3e-2), (d, e)
''')

S("c14-cache", "C14", [("geometry.py", '''        if np.shape(self.K) == np.shape(k) and (self.K == k).all():
            mieA_1_lmax, mieB_1_lmax''', '''        if np.shape(self.K) == np.shape(k) and (self.K[0] == k[0] and self.K[-1] == k[-1]):
            mieA_1_lmax, mieB_1_lmax''')], "two calls with arrays of equal length, first and last wavenumber that differ in between", "reflection coefficients of other wavenumbers are reused", '''
import numpy as np
from geometry import SphereSphere
import materials
mk = lambda: SphereSphere(1.0, 1.0, 2.5, materials.Gold, materials.Gold, materials.Vacuum, lmax=3, lssmax=3)
g = mk()
g.mSumme(np.array([0.1, 0.2, 1.0]))
k = np.array([0.1, 0.7, 1.0])
assert np.allclose(g.mSumme(k), mk().mSumme(k), rtol=1e-9)
''')

S("c14-alias", "C14", [("geometry.py", '''            mieB = self.MieB
            self.K = k.copy()
        V = translation(self.lmax, self.lssmax, m, self.mat3,''', '''            mieB = self.MieB
            self.K = k
        V = translation(self.lmax, self.lssmax, m, self.mat3,''')], "the caller changes its wavenumber array in place between two calls", "reflection coefficients of the old wavenumbers are reused", '''
import numpy as np
from geometry import SphereSphere
import materials
mk = lambda: SphereSphere(1.0, 1.0, 2.5, materials.Gold, materials.Gold, materials.Vacuum, lmax=3, lssmax=3)
g = mk()
k = np.array([0.1, 0.5])
g.mSumme(k)
k *= 3
assert np.allclose(g.mSumme(k), mk().mSumme(k.copy()), rtol=1e-9)
''')

S("c15-min", "C15", [("geometry.py", '''                relchange = max(abs(to_add/traceSum))
''', '''                relchange = min(abs(to_add/traceSum))
''')], "several wavenumbers of which one converges faster", "the expansion stops when the first wavenumber has converged", '''
import numpy as np
from geometry import SphereSphere
import materials
g = SphereSphere(1.0, 1.0, 2.5, materials.Gold, materials.Gold, materials.Vacuum, lmax=2, lssmax=2, precision=1e-8, evaluation="trace")
M = np.zeros((2, 2, 2))
M[0], M[1] = np.diag([0.7, 0.1]), np.diag([1e-3, 1e-3])
r = g.arbitrary_roundtrips(M, "automatic", 0)
assert abs(r[0] - (np.log(0.3)+np.log(0.9))) < 1e-5, r
''')

S("c17-lss", "C17", [("geometry.py", "            self.lssmax = int(max(r1,r2)/min(r1,r2)*self.lmax)\n", "            self.lssmax = int(r2/r1*self.lmax)\n")],
  "the first sphere is the larger one", "the second cut-off is below the first", '''
from geometry import SphereSphere
import materials as m
g = SphereSphere(4.0, 1.0, 6.0, m.Gold, m.Gold, m.Vacuum, lmax=4, lssmax="automatic")
assert g.lssmax >= g.lmax
''')

S("c18-mu", "C18", [("scattering.py", '''        nP, nM = np.sqrt(epsP*muP), np.sqrt(epsM*muM)
        sqrtM''', '''        nP, nM = np.sqrt(epsP), np.sqrt(epsM*muM)
        sqrtM''')], "a magnetic plate", "the refractive index of the plate ignores its permeability", '''
import numpy as np
from scattering import scattering
class M:
    is_perfect_conductor = False
    def __init__(s, e, m): s.e, s.m = e, m
    def epsilon(s, k): return s.e
    def mu(s, k): return s.m
a, b = M(2., 3.), M(4., 1.)
x, y = scattering(a, b).fresnel(0.5, 0.7), scattering(b, a).fresnel(0.5, 0.7)
assert abs(x[0]+y[0]) < 1e-12 and abs(x[1]+y[1]) < 1e-12
''')

S("c19-shield", "C19", [("PFA.py", '''        p_matsubaras[0] = 0.5*p_matsubaras[0]
        if n0_shielding:
            p_matsubaras[0] = 0
''', '''        if n0_shielding:
            p_matsubaras[0] = 0
        else:
            p_matsubaras[0] = 0.5*p_matsubaras[0] if nmax > 1 else p_matsubaras[0]
''')], "temperature times distance above 10, so that at most one Matsubara term contributes", "the n=0 term of the pressure is counted fully", '''
import numpy as np, PFA, materials
P = PFA.SphereSpherePFA(materials.PerfectConductor, materials.PerfectConductor, materials.Vacuum)
T, L, h = 30.0, 1.0, 1e-3
num = -(P.planeplaneFreeEnergy(T, L+h)-P.planeplaneFreeEnergy(T, L-h))/(2*h)
p = P.planeplanePressure(T, L)
assert abs(p-num) < 1e-3*abs(num), (p, num)
''')

S("c20-header", "C20", [("worker.py", '''    outfile = open(foutput, "ab")
    np.savetxt(outfile, result, delimiter=",")
''', '''    outfile = open(foutput, "ab")
    np.savetxt(outfile, result, delimiter=",", fmt="%.10g")
''')], "numbers with more than ten significant digits", "numbers read back differ from the computed ones", '''
import subprocess, tempfile, shutil, numpy as np
d = tempfile.mkdtemp()
try:
    open(d+"/j.config", "w").write("""[geometry]
ra = 1.0
rb = 1.3
d = 3.0
lmax = 2
lssmax = 2
precision = 1e-4
evaluation = lndet
[materials]
mata = materials.Gold
matb = materials.Gold
matmd = materials.Vacuum
[thermodynamics]
Tmin = 0.5
Tmax = 1.0
nmax = 3
quantity = free_energy()
""")
    w = os.path.join(os.getcwd(), "CasimirRio")
    subprocess.run([sys.executable, "-B", w+"/worker.py", d+"/j.config", d+"/o.txt"], cwd=w, check=True, stdout=subprocess.DEVNULL)
    got = np.loadtxt(d+"/o.txt")
    from geometry import SphereSphere
    from thermodynamics import finiteT
    import materials as m
    want = finiteT(0.5, 3, 1.0, SphereSphere(1.0, 1.3, 3.0, m.Gold, m.Gold, m.Vacuum, lmax=2, lssmax=2, precision=1e-4)).free_energy()
    assert np.allclose(got, want, rtol=1e-14, atol=0), (got, want)
finally:
    shutil.rmtree(d)
''')

S("c21-override", "C21", [("worker.py", '''        L = float(args[3])
    except IndexError:
        L = config.getfloat("geometry", "d")
''', '''        L = config.getfloat("geometry", "d") if config.has_option("geometry", "d") else float(args[3])
    except ConfigParser.NoOptionError:
        L = config.getfloat("geometry", "d")
''')], "a distance on the command line and one in the job file", "the distance on the command line is ignored", '''
import subprocess, tempfile, shutil
d = tempfile.mkdtemp()
try:
    open(d+"/j.config", "w").write("""[geometry]
ra = 1.0
rb = 1.3
d = 3.0
lmax = 1
lssmax = 1
precision = 1e-4
evaluation = lndet
[materials]
mata = materials.Gold
matb = materials.Gold
matmd = materials.Vacuum
[thermodynamics]
Tmin = 0.5
Tmax = 0.5
nmax = 2
quantity = free_energy()
""")
    w = os.path.join(os.getcwd(), "CasimirRio")
    subprocess.run([sys.executable, "-B", w+"/worker.py", d+"/j.config", d+"/o.txt", "4.5"], cwd=w, check=True, stdout=subprocess.DEVNULL)
    assert "d = 4.5" in open(d+"/o.txt").read()
finally:
    shutil.rmtree(d)
''')

S("c22-h", "C22", [("helper_functions.py", '''    h = x[1]-x[0]
    if not h>0:
''', '''    h = (x[-1]-x[0])/(len(x)-1)
    if not h>0:
''')], "a grid that is not increasing at its start but ends above it", "a non-increasing grid is accepted", '''
import numpy as np
from helper_functions import num_derivative
x = np.array([1.0, 0.5, 2.0, 3.0, 4.0, 5.0])
try:
    num_derivative(x**2, x)
except ValueError:
    sys.exit(0)
sys.exit(1)
''')

S("c02-dielectric", "C02", [("materials.py", """    for resonator in e_properties:
        if not resonator[0]==0 and resonator[1] == 0:
            return False
    return True
""", """    res = sorted(e_properties, key=lambda p: p[1])
    if len(res) and res[0][1] == 0:
        return res[0][0] == 0
    return True
""")], "an oscillator of zero strength and zero resonance listed before a free-carrier oscillator", "a conductor is classified as dielectric depending on the order of its oscillators", """
import materials
assert materials.LorentzMaterial([(0, 0, 0), (1e15, 0, 1e13)], ()).is_dielectric == False
assert materials.LorentzMaterial([(1e15, 0, 1e13), (0, 0, 0)], ()).is_dielectric == False
""")

S("c03-highorder", "C03", [("bessel_sk.py", """        lnk[:, l] = lnk[:,l-1] + np.log(np.exp(lnk[:,l-2]-lnk[:,l-1]) + (2*l-1)/x)
""", """        if (2*l-1)/x[0] > 2e5:
            # k_(l-2) is negligible for l >> x
            lnk[:, l] = lnk[:,l-1] + np.log((2*l-1)/x)
        else:
            lnk[:, l] = lnk[:,l-1] + np.log(np.exp(lnk[:,l-2]-lnk[:,l-1]) + (2*l-1)/x)
""")], "a batch whose first argument is tiny and another one is not", "the recurrence loses its k_(l-2) term for the other arguments of the batch", """
import numpy as np, bessel_sk
a = bessel_sk.lnknu(np.array([1e-6, 30.0]), 5)
b = bessel_sk.lnknu(np.array([30.0]), 5)
assert np.allclose(a[1], b[0], rtol=1e-12)
""")

S("c06-mirror", "C06", [("translation.py", """        vEEab = np.empty(sh_tupel)
        vEEba = np.empty(sh_tupel)
        vEMab = np.empty(sh_tupel)
        vEMba = np.empty(sh_tupel)
        skalierung = np.empty(sh_tupel)
        for i in range(0, l1_len):
            for j in range(0, l2_len):
                tmp = self.get_vl1l2(l1[i], l2[j])
""", """        vEEab = np.zeros(sh_tupel)
        vEEba = np.zeros(sh_tupel)
        vEMab = np.zeros(sh_tupel)
        vEMba = np.zeros(sh_tupel)
        skalierung = np.zeros(sh_tupel)
        for i in range(0, l1_len):
            for j in range(0, l2_len):
                if j < i < l2_len:
                    # the coefficients are symmetric in l1 and l2
                    for v in (vEEab, vEEba, vEMab, vEMba, skalierung):
                        v[:, i, j] = v[:, j, i]
                    continue
                if l1[i] > l2[-1]:
                    continue
                tmp = self.get_vl1l2(l1[i], l2[j])
""")], "a first cut-off larger than the second", "coefficients with l1 above the second cut-off are left out", """
import numpy as np
from translation import translation
import materials
t = translation(4, 2, 0, materials.Vacuum, 1.5, np.array([0.4]), 1, 0)
V = t.trans_ab()
assert np.allclose(V[0][:, 3, 1], t.get_vl1l2(4, 2)[0], rtol=1e-12)
""")

S("c07-m", "C07", [("translation.py", """             -lfac(ls+m) - lfac(ls-m) - np.log(lg*(ls+1))
""", """             -lfac(ls+m) - lfac(lg-m) - np.log(lg*(ls+1))
"""), ("translation.py", """            ( lfac(lg+m) + lfac(lg-m) + np.log(2*lg+1)""", """            ( lfac(lg+m) + lfac(np.where(l2gl1, l2, l1)-m) + np.log(2*lg+1)""")],
 "internal geometry, l1 different from l2", "the static internal coefficient is not the k->0 limit off the diagonal", """
import numpy as np
from translation import translation
import materials
s, ln = translation(3, 3, 1, materials.Vacuum, 1.0, np.array([0]), 0, 0).trans_ab()
k = np.array([1e-3])
t = translation(3, 3, 1, materials.Vacuum, 1.0, k, 0, 0)
for a in (1, 2, 3):
    for b in (1, 2, 3):
        v = t.get_vl1l2(a, b)
        w = np.log(abs(v[0][0])) + v[4][0] - abs(a-b)*np.log(k[0])
        assert abs(w - ln[a-1, b-1]) < 1e-3, (a, b, w, ln[a-1, b-1])
""")

S("c12-float", "C12", [("matrix_balancing.pyx", "    cdef double f = 0\n", "    cdef float f = 0\n")],
 "row and column norms that differ by more than 2^256", "the scaling factor overflows and the matrix is destroyed", """
import numpy as np
from matrix_balancing import balance
M = np.array([[1., 1e95], [1e-95, 2.]])
b = balance(M.copy(), 0.9)
assert np.isfinite(b).all() and abs(b[0, 1]*b[1, 0] - 1) < 1e-12, b
""")

S("c16-round", "C16", [("thermodynamics.py", "        self.maxstep = int(round(self.Tmax / self.deltaT))\n", "        self.maxstep = int(self.Tmax / self.deltaT)\n")],
 "a temperature range whose quotient rounds down, such as 0.3/0.1", "the highest temperature is missing", """
from thermodynamics import finiteT
from geometry import SphereSphere
import materials as m
g = SphereSphere(1.0, 1.0, 3.0, m.Gold, m.Gold, m.Vacuum, lmax=1, lssmax=1)
assert len(finiteT(0.1, 4, 0.3, g).free_energy()) == 3
""")

S("c19-medium", "C19", [("PFA.py", """        nMd2 = self.matMd.epsilon(kn)*self.matMd.mu(kn)
        k = sqrt(k_perp**2 + nMd2*kn**2)
        efactorTE = rTE1*rTE2 * np.exp(-2*k*L)
        efactorTM = rTM1*rTM2 * np.exp(-2*k*L)
        return log(""", """        k = sqrt(k_perp**2 + self.matMd.epsilon(kn)*kn**2)
        efactorTE = rTE1*rTE2 * np.exp(-2*k*L)
        efactorTM = rTM1*rTM2 * np.exp(-2*k*L)
        return log(""")], "a magnetic medium", "the energy integrand decays with the wrong constant, energy and pressure disagree", """
import numpy as np, PFA, materials
md = materials.LorentzMaterial([(1e15, 2e15, 0)], (3.0, 1e14))
P = PFA.SphereSpherePFA(materials.Gold, materials.Silicon, md)
f = lambda L: P.roundTrip(0.6, 0.9, L)
h = 1e-4
num = -(f(1+h)-f(1-h))/(2*h)
assert abs(P.pressureRoundTrip(0.6, 0.9, 1.0) - num) < 1e-5*abs(num)
""")

S("c13-tri", "C13", [("geometry.py", """    schur = A22-dot_3d_matrices(dot_3d_matrices(A21, iA11), A12)
    ischur""", """    if A21[0].any():
        schur = A22-dot_3d_matrices(dot_3d_matrices(A21, iA11), A12)
    else:       # no polarisation mixing (m=0)
        schur = A22
    ischur""")], "a batch whose first matrix is block-triangular and another one is not", "the inverse of the other batch elements is wrong", """
import numpy as np, geometry
rng = np.random.RandomState(0)
M = rng.rand(2, 4, 4) + 3*np.eye(4)
M[0, 2:, :2] = 0
assert np.allclose(geometry.inv_3d_blockmatrix(M), np.linalg.inv(M))
""")

S("c16-entropy", "C16", [("thermodynamics.py", """        Ts = self.deltaT*np.arange(1, self.maxstep+1)
        F_T = Ts*np.array([self.f_matsubaras[::i].sum()
                           for i in range(1, self.maxstep+1)])
        return F_T
""", """        Ts = self.deltaT*np.arange(1, self.maxstep+1)
        F_T = Ts*np.array([self.f_matsubaras[:(self.nmax//i)*i:i].sum()
                           for i in range(1, self.maxstep+1)])
        return F_T
""")], "any temperature whose index divides the number of terms", "the last term of the sum is dropped", """
import numpy as np
from thermodynamics import finiteT
from geometry import SphereSphere
import materials as m
g = SphereSphere(1.0, 1.0, 3.0, m.Gold, m.Gold, m.Vacuum, lmax=1, lssmax=1)
f = finiteT(0.1, 4, 0.2, g)
f.f_matsubaras = np.array([1., 2., 4., 8., 16.])
assert np.allclose(f.free_energy(), [0.1*31, 0.2*21])
""")

S("c17-offset", "C17", [("geometry.py", "    return max(int(np.exp(eta)*r_o_L/13.0)+l_offset, 1)\n", "    return max(int(np.exp(eta)*r_o_L/13.0), 1)+l_offset\n")],
 "a negative offset at large distance", "the automatic cut-off is not positive", """
from geometry import get_lmax
assert get_lmax(1.0, 1.0, 12.0, 1e-4, -4) >= 1
""")
