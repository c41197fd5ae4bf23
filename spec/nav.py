"""Reference definitions for shipgrav.nav (read by the analyser, never run)."""
import numpy as np


def latlon_to_EN(lon, lat, freq=1):
    a = 6378137.0
    b = 6356752.3142451
    e2 = (a*a - b*b)/(a*a)
    kern = [1/1260, -5/504, 5/84, -5/21, 5/6, 0, -5/6, 5/21, -5/84, 5/504, -1/1260]
    rad = np.pi/180
    phi = rad*lat
    w = 1 - e2*np.sin(phi)**2
    meridian = a*(1 - e2)/w**1.5      # radius of curvature in the meridian
    normal = a/np.sqrt(w)             # ... and in the prime vertical
    north = meridian*np.convolve(lat, kern, 'same')*rad*freq
    east = normal*np.cos(phi)*np.convolve(lon, kern, 'same')*rad*freq
    n = len(lat)
    k = np.arange(n)
    edge = (k < 5) | (k >= n - 5)
    return np.where(edge, np.nan, north), np.where(edge, np.nan, east)


def ENvel_to_course_heading(ve, vn):
    return np.arctan2(ve, vn)*180/np.pi, (ve*ve + vn*vn)**0.5


def rotate_acceleration_EN_to_cl(heading, accE, accN):
    h = heading*np.pi/180
    return accE*np.cos(h) - accN*np.sin(h), accE*np.sin(h) + accN*np.cos(h)
