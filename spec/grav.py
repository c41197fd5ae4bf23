"""Reference definitions for shipgrav.grav (read by the analyser, never run)."""
import numpy as np
from datetime import datetime, timezone


def wgs_grav(lat):
    s2 = np.sin(lat*np.pi/180)**2
    return 978032.53359*(1 + 0.00193185265241*s2)/(1 - 0.00669437999014*s2)**0.5


def free_air_second_order(lat, ht, free_water=False):
    s2 = np.sin(lat*np.pi/180)**2
    c0 = 0.22242 if free_water else 0.3087691
    return 7.2125e-8*ht*ht - (c0 - 0.0004398*s2)*ht


def eotvos_full(lon, lat, ht, samp, a=6378137.0, b=6356752.3142):
    """ Harlan (1968): vertical component, one interior sample at a time """
    We = 0.00007292115
    ecc = (a - b)/a
    rad = np.pi/180
    n = len(lat)
    k = np.arange(n)
    i = np.where(k == 0, 1, np.where(k == n - 1, n - 2, k))     # end samples repeat their neighbours

    def d1(y):
        return (y[i + 1] - y[i - 1])*samp/2

    def d2(y):
        return (y[i + 1] - 2*y[i] + y[i - 1])*samp**2

    phi = rad*lat
    lam = rad*lon
    dphi, ddphi = d1(phi), d2(phi)
    dlam = d1(lam)
    dh, ddh = d1(ht), d2(ht)
    p = phi[i]
    s, c = np.sin(p), np.cos(p)
    s2, c2 = np.sin(2*p), np.cos(2*p)
    # geocentric radius of the ellipsoid and deviation of the normal, with derivatives
    rp = a*(1 - ecc*s**2)
    drp = -a*ecc*s2*dphi
    ddrp = -a*ecc*(s2*ddphi + 2*c2*dphi**2)
    D = np.arctan(ecc*s2)
    dD = 2*ecc*c2*dphi
    ddD = 2*ecc*c2*ddphi - 4*ecc*s2*dphi**2
    sD, cD = np.sin(D), np.cos(D)
    # position in the local frame (x north, z down) and derivatives
    x = -rp*sD
    z = -rp*cD - ht[i]
    dx = -drp*sD - rp*dD*cD
    dz = -drp*cD + rp*dD*sD - dh
    ddz = -ddrp*cD + 2*drp*dD*sD + rp*(ddD*sD + dD**2*cD) - ddh
    # rotation of the frame
    wx = (dlam + We)*c
    wy = -dphi
    wz = -(dlam + We)*s
    wydot = -ddphi
    ex, ez = We*c, -We*s
    total = ddz + 2*(-wy*dx) + (-wydot*x) + (wx*wz*x - (wx**2 + wy**2)*z)
    earth = ex*ez*x - ex**2*z
    return (total - earth)*1e5


def longman(lon, lat, day_seconds, days, alt):
    pass


def longman_parts(lon, lat, times, alt):
    """ lunar and solar vertical acceleration (Longman 1959), mGal, Love factor included """
    gm, gs = [], []
    origin = datetime(1899, 12, 31, 12, tzinfo=timezone.utc)
    T = np.zeros(len(times))
    hour = np.zeros(len(times))
    for j in range(len(times)):
        since = times[j] - origin
        T[j] = (since.days + since.seconds/86400)/36525
        u = times[j].astimezone(timezone.utc)
        hour[j] = u.hour + u.minute/60 + u.second/3600
    mu = 6.673e-8
    e, m = 0.05490, 0.074804
    c, c1 = 3.84402e10, 1.495e13
    a = 6.378270e8
    inc = 0.08979719
    om = 23.452*np.pi/180
    lam = lat*np.pi/180
    s = 4.720023434 + 8399.709299*T + 0.0000440696*T**2
    p = 5.835124713 + 71.01800936*T - 0.000180545*T**2 - 0.00000021817*T**3
    h = 4.88162792 + 628.3319509*T + 0.00000527962*T**2
    N = 4.523588564 - 33.75715303*T + 0.000036749*T**2
    p1 = 4.908229461 + 0.03000526416*T + 0.000007902463*T**2
    e1 = 0.01675104 - 0.0000418*T - 0.000000126*T**2
    inclination = np.arccos(np.cos(om)*np.cos(inc) - np.sin(om)*np.sin(inc)*np.cos(N))
    nu = np.arcsin(np.sin(inc)*np.sin(N)/np.sin(inclination))
    t = (15*(hour - 12) + lon)*np.pi/180
    cosal = np.cos(N)*np.cos(nu) + np.sin(N)*np.sin(nu)*np.cos(om)
    sinal = np.sin(om)*np.sin(N)/np.sin(inclination)
    xi = N - 2*np.arctan(sinal/(1 + cosal))
    sig = s - xi
    lmoon = (sig + 2*e*np.sin(s - p) + 5/4*e**2*np.sin(2*(s - p)) + 15/4*m*e*np.sin(s - 2*h + p)
             + 11/8*m**2*np.sin(2*(s - h)))
    lsun = h + 2*e1*np.sin(h - p1)
    chi = t + h - nu
    chi1 = t + h
    costh = np.sin(lam)*np.sin(inclination)*np.sin(lmoon) + np.cos(lam)*(
        np.cos(inclination/2)**2*np.cos(lmoon - chi) + np.sin(inclination/2)**2*np.cos(lmoon + chi))
    cosph = np.sin(lam)*np.sin(om)*np.sin(lsun) + np.cos(lam)*(
        np.cos(om/2)**2*np.cos(lsun - chi1) + np.sin(om/2)**2*np.cos(lsun + chi1))
    r = a/np.sqrt(1 + 0.006738*np.sin(lam)**2) + 100*alt
    ap = 1/(c*(1 - e**2))
    ap1 = 1/(c1*(1 - e1**2))
    dinv = (1/c + ap*e*np.cos(s - p) + ap*e**2*np.cos(2*(s - p)) + 15/8*ap*m*e*np.cos(s - 2*h + p)
            + ap*m**2*np.cos(2*(s - h)))
    Dinv = 1/c1 + ap1*e1*np.cos(h - p1)
    love = 1 + 0.612 - 1.5*0.303
    moon = mu*7.3537e25*(r*dinv**3*(3*costh**2 - 1) + 1.5*r**2*dinv**4*(5*costh**3 - 3*costh))
    sun = mu*1.993e33*r*Dinv**3*(3*cosph**2 - 1)
    return moon*1e3*love, sun*1e3*love


def longman_tide_prediction(lon, lat, times, alt=0, return_components=False):
    moon, sun = longman_parts(lon, lat, times, alt)
    if return_components:
        return moon + sun, moon, sun
    return moon + sun


# ---------------------------------------------------------------- cross-coupling
from scipy.signal import firwin, lfilter
from pandas import DataFrame
from statsmodels.api import OLS, add_constant

TAYLOR = np.array([1/1260, -5/504, 5/84, -5/21, 5/6, 0, -5/6, 5/21, -5/84, 5/504, -1/1260])


def prepared(y):
    """ double derivative, ends dropped, low-passed, transients dropped """
    d2 = np.convolve(np.convolve(y, TAYLOR, 'same'), TAYLOR, 'same')[10:-10]
    return lfilter(firwin(200, 1/200, window='blackman'), 1, d2)[200:-200]


def calc_cross_coupling_coefficients(faa_in, vcc_in, ve_in, al_in, ax_in, level_in, times=None, samplerate=1):
    last = np.array([len(faa_in) - 1])
    if times is not None:
        gaps = np.diff(times) > 5*samplerate
        last = np.append(np.where(gaps)[0], last)
    bounds = np.append(-1, last)
    cols = {'ve': ve_in, 'vcc': vcc_in, 'al': al_in, 'ax': ax_in, 'lev': level_in, 'g': faa_in}
    out = {}
    for name in ['ve', 'vcc', 'al', 'ax', 'lev', 'g']:
        acc = np.array([])
        for k in range(1, len(bounds)):
            a, b = bounds[k - 1] + 1, bounds[k] + 1
            if b - a >= 1000:
                acc = np.append(acc, prepared(cols[name][a:b]))
        out[name] = acc
    df = DataFrame({'ve': out['ve'], 'vcc': out['vcc'], 'al': out['al'], 'ax': out['ax'], 'lev': out['lev'], 'g': -out['g']})
    model = OLS(df['g'], add_constant(df[['ve', 'vcc', 'al', 'ax', 'lev']])).fit()
    return df, model


# ---------------------------------------------------------------- platform
def tilt_filter(per, dt, damp):
    d = damp if damp else np.sqrt(2)/2
    w = 2/dt
    om0 = w*np.tan(np.pi/per*dt)
    oms = w*np.tan(dt/2*np.sqrt(9.8/6371100))
    d0 = w**2 + 2*d*om0*w + om0**2
    num = np.array([oms**2 - om0**2 - 2*d*om0*w, 2*(oms**2 - om0**2), oms**2 - om0**2 + 2*d*om0*w])/d0
    den = np.array([1, 2*(om0**2 - w**2)/d0, (w**2 + om0**2 - 2*d*om0*w)/d0])
    return num, den


def tilt(acc, g, on_off, dt, per, damp):
    a = np.where(on_off > 0, 0, np.where(np.isnan(acc), 0, acc))
    drive = a/g
    drive = np.where(np.isnan(drive), 0, drive)
    num, den = tilt_filter(per, dt, damp)
    return np.arctan(lfilter(num, den, drive))


def up_vecs(dt, g, cacc, lacc, on_off, cper, cdamp, lper, ldamp):
    tc = tilt(cacc, g, on_off, dt, cper, cdamp)
    tl = tilt(lacc, g, on_off, dt, lper, ldamp)
    even = np.arange(len(tc)) % 2 == 0
    sc, cc, sl, cl = np.sin(tc), np.cos(tc), np.sin(tl), np.cos(tl)
    cross = np.where(even, -sc*cl, -sc)
    lng = np.where(even, -sl, -sl*cc)
    return np.vstack((cross, lng, cc*cl))


# ---------------------------------------------------------------- Parker series
from math import factorial
from scipy.special import erf, erfcinv


def distance(n, d):
    """ angular wavenumber: distance of each discrete frequency from zero """
    j = np.arange(n)
    return 2*np.pi/(n*abs(d))*np.minimum(j, n - j)


def grav1d_padded(xtopo, topo, zlev, rho):
    nx = len(xtopo)
    base = np.mean(topo)
    w = 2*len(topo)
    full = np.concatenate((np.repeat(topo[0], w), topo, np.repeat(topo[-1], w))) - base
    k = distance(len(full), (xtopo[-1] - xtopo[0])/(nx - 1))
    first = np.fft.fft(full)
    first[0] = 0
    series = first
    for p in range(2, 6):
        series = series + k**(p - 1)/factorial(p)*np.fft.fft(full**p)
    spectrum = 2*np.pi*6.673e-8*rho*np.exp(-k*(zlev - base))*series
    return 100*np.real(np.fft.ifft(spectrum)[2*nx:3*nx])


def grav2d_folding(X, Y, Z, dx, dy, drho=0.6, dz=6000, ifold=True, npower=5):
    nx, ny = len(X), len(Y)
    mean = np.mean(Z)
    relief = 100*(mean - Z)                 # cm
    mx, my = nx, ny
    if ifold:
        mx, my = 2*nx, 2*ny
        relief = np.vstack((relief, np.flipud(relief)))
        relief = np.hstack((relief, np.fliplr(relief)))
    kx = distance(mx, 1e5*dx)
    ky = distance(my, 1e5*dy)
    k = np.sqrt(kx[np.newaxis, :]**2 + ky[:, np.newaxis]**2)
    total = np.fft.fft2(relief)
    total[0, 0] = 0
    for p in range(2, npower + 1):
        total = total + np.fft.fft2(relief**p)*np.where(k == 0, 0, k**(p - 1))/factorial(p)
    out = np.fft.ifft2(total*2*np.pi*6.673e-8*1000*drho*np.exp(-k*100*(mean + dz)))
    return np.real(out)[:ny, :nx]


# ---------------------------------------------------------------- layer
def layer(rho, dx, dy, z1, z2, kx, ky):
    k = np.sqrt(kx[np.newaxis, :]**2 + ky[:, np.newaxis]**2)
    F = np.fft.fft2(rho)
    out = np.where(k == 0, 0, 2*np.pi*6.673e-11*F*(np.exp(-k*z1) - np.exp(-k*z2))/k)
    return 1e8*np.real(np.fft.ifft2(out))


def grav2d_layer_variable_density(rho, dx, dy, z1, z2):
    ny, nx = rho.shape
    return layer(rho, dx, dy, z1, z2, distance(nx, dx), distance(ny, dy))


def layer_late_nyquist(rho, dx, dy, z1, z2):
    """ the recorded finding: frequencies up to n/2 + 1 are taken as positive """
    ny, nx = rho.shape

    def w(n, d):
        j = np.arange(n)
        return 2*np.pi/(n*d)*np.where(j <= n/2 + 1, j, j - n)
    return layer(rho, dx, dy, z1, z2, w(nx, dx), w(ny, dy))


# ---------------------------------------------------------------- thermal models
def seconds(x, u, time):
    year = 365.25*24*3600
    return x*1e6*year if time else abs(x)*year/u


def halfspace_depth(t, Tm, rhom, rhow, a, k):
    return 2*rhom*a*Tm/(rhom - rhow)*np.sqrt(k*t/np.pi)


def therm_halfspace(x, z, u=0.01, Tm=1350, time=False, rhom=3300, rhow=1000, a=3.e-5, k=1.e-6):
    t = seconds(x, u, time)
    T = Tm*erf(z[:, np.newaxis]/(2*np.sqrt(k*t[np.newaxis, :])))
    return T, halfspace_depth(t, Tm, rhom, rhow, a, k)


def therm_Z_halfspace(x, T, u=0.01, Tm=1350, time=False, rhom=3300, rhow=1000, a=3.e-5, k=1.e-6):
    t = seconds(x, u, time)
    return 2*np.sqrt(k*t)*erfcinv(1 - T/Tm), halfspace_depth(t, Tm, rhom, rhow, a, k)


def therm_plate(x, z, u=0.01, zL0=100.e3, Tm=1350, time=False, rhom=3300, rhow=1000, a=3.e-5, k=1.e-6):
    t = seconds(x, u, time)
    Z = z[:, np.newaxis]
    s = Z/zL0
    for n in range(1, 11):
        s = s + 2/(n*np.pi)*np.exp(-k*n**2*np.pi**2*t[np.newaxis, :]/zL0**2)*np.sin(n*np.pi*Z/zL0)
    T = np.where(Z > zL0, Tm, Tm*s)
    w = 1/2
    for n in [1, 3, 5]:
        w = w - 4/(n*np.pi)**2*np.exp(-k*n**2*np.pi**2*t/zL0**2)
    return T, rhom*a*Tm*zL0/(rhom - rhow)*w


def therm_Z_plate(x, T, u=0.01, zL0=100.e3, Tm=1350, time=False, minz=0, maxz=100e3, zsp=1e2, rhom=3300, rhow=1000, a=3.e-5, k=1.e-6):
    z = np.arange(minz, maxz, zsp)
    field = therm_plate(x, z, u, zL0, Tm, time, rhom, rhow, a, k)[0]
    out = np.zeros((len(T), len(x)))
    for j in range(len(x)):
        for i in range(len(T)):
            out[i, j] = z[np.argmin(np.abs(field[:, j] - T[i]))]
    return out


# ---------------------------------------------------------------- crustal thickness
def taper(k, wlarge, wsmall):
    k1, k2 = 2*np.pi/wlarge, 2*np.pi/wsmall
    return np.where(k > k2, 0, np.where(k > k1, (1 + np.cos(np.pi*(k - k1)/(k2 - k1)))/2, 1))


def thickness_spectrum(ur, nx, ny, dx, dy, zdown, rho, wlarge, wsmall):
    kx = distance(nx, 1e5*dx)
    ky = distance(ny, 1e5*dy) if dy != 0 else np.zeros(ny)
    k = np.sqrt(kx[:, np.newaxis]**2 + ky[np.newaxis, :]**2)
    F = np.fft.fft2((-0.001*(ur - np.mean(ur))).reshape(nx, ny))
    up = F*np.exp(1e5*zdown*k)/(2*np.pi*6.673e-8*rho)*taper(k, 1e5*wlarge, 1e5*wsmall)
    return k, up


def crustal_thickness_2D(ur, nx=1000, ny=1, dx=1.3, dy=0, zdown=10, rho=0.4, wlarge=45, wsmall=25, back=False):
    assert wlarge > wsmall
    k, up = thickness_spectrum(ur, nx, ny, dx, dy, zdown, rho, wlarge, wsmall)
    thick = np.real(np.fft.ifft2(up)).reshape(-1, 1)/1e5
    if back:
        g = np.real(np.fft.ifft2(-up*np.exp(-1e5*zdown*k)*2*np.pi*6.673e-8*rho)).reshape(-1, 1)
        return thick, 1000*g + np.mean(ur)
    return thick


def thickness_forward_transform(ur, nx=1000, ny=1, dx=1.3, dy=0, zdown=10, rho=0.4, wlarge=45, wsmall=25, back=False):
    assert wlarge > wsmall
    """ the recorded finding: the way back uses the forward transform """
    k, up = thickness_spectrum(ur, nx, ny, dx, dy, zdown, rho, wlarge, wsmall)
    thick = np.fft.fft2(up).reshape(-1, 1)/(nx*ny)/1e5
    if back:
        g = np.fft.fft2(-up*np.exp(-1e5*zdown*k)*2*np.pi*6.673e-8*rho).reshape(-1, 1)
        return thick[::-1], (1000*g/(nx*ny) + np.mean(ur))[::-1]
    return thick
