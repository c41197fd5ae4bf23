[
('tide-list-comp','C16 C01 C14 C30',[('shipgrav/grav.py',"""    T, t0 = np.empty(len(times)), np.empty(len(times))
    for i, stamp in enumerate(times):
        a, b = _convert_datetime_tidetime(stamp)
        T[i] = a
        t0[i] = b
        if t0[i] < 0:
            t0[i] += 24
        if t0[i] >= 24:
            t0[i] == 24
""","""    pairs = [_convert_datetime_tidetime(stamp) for stamp in times]
    T = np.array([p[0] for p in pairs])
    t0 = np.array([p[1] for p in pairs])
""")]),
('tide-zip-star','C16 C01',[('shipgrav/grav.py',"""    T, t0 = np.empty(len(times)), np.empty(len(times))
    for i, stamp in enumerate(times):
        a, b = _convert_datetime_tidetime(stamp)
        T[i] = a
        t0[i] = b
        if t0[i] < 0:
            t0[i] += 24
        if t0[i] >= 24:
            t0[i] == 24
""","""    converted = np.array([_convert_datetime_tidetime(stamp) for stamp in times])
    T, t0 = converted[:, 0], converted[:, 1]
""")]),
('tide-range','C16 C01',[('shipgrav/grav.py',"""    for i, stamp in enumerate(times):
        a, b = _convert_datetime_tidetime(stamp)
        T[i] = a
        t0[i] = b
""","""    stamps = list(times)
    for i in range(len(stamps)):
        T[i], t0[i] = _convert_datetime_tidetime(stamps[i])
""")]),
('tide-append','C16 C01',[('shipgrav/grav.py',"""    T, t0 = np.empty(len(times)), np.empty(len(times))
    for i, stamp in enumerate(times):
        a, b = _convert_datetime_tidetime(stamp)
        T[i] = a
        t0[i] = b
        if t0[i] < 0:
            t0[i] += 24
        if t0[i] >= 24:
            t0[i] == 24
""","""    T, t0 = [], []
    for stamp in times:
        century, hour = _convert_datetime_tidetime(stamp)
        T.append(century)
        t0.append(hour)
    T = np.asarray(T)
    t0 = np.asarray(t0)
""")]),
('tide-total-seconds-parts','C16 C01',[('shipgrav/grav.py',"""    days = dt.days + dt.seconds/3600./24.
    julian_century = days/36525
    julian_hour = (timestamp.hour + timestamp.minute /
                   60. + timestamp.second/3600.)
""","""    julian_century = (dt.days + dt.seconds/86400.)/36525
    seconds = 3600*timestamp.hour + 60*timestamp.minute + timestamp.second
    julian_hour = seconds/3600.
""")]),
('tide-helpers','C16 C30',[('shipgrav/grav.py',"""    gm = ((mu*M*r/(d*d*d))*(3*cos_theta**2 - 1) + (3./2) *
          (mu*M*r*r/(d*d*d*d))*(5*cos_theta**3 - 3*cos_theta))
    # vertical component of tidal acceleration due to the sun
    gs = mu*S*r/(D*D*D)*(3*cos_phi**2 - 1)

    love = (1 + h2 - 1.5*k2)
    g0 = (gm + gs) * 1e3*love
    if return_components:
        return g0, gm*1e3*love, gs*1e3*love
    else:
        return g0
""","""    gm = _second(mu*M, r, d, cos_theta) + 1.5*(mu*M*r**2/d**4)*(5*cos_theta**3 - 3*cos_theta)
    # vertical component of tidal acceleration due to the sun
    gs = _second(mu*S, r, D, cos_phi)

    scale = 1000.*(1 + h2 - 1.5*k2)
    gm, gs = gm*scale, gs*scale
    return (gm + gs, gm, gs) if return_components else gm + gs


def _second(gm, r, d, cosz):
    return gm*r/d**3*(3*np.square(cosz) - 1)
""")]),
('tide-reorder','C16',[('shipgrav/grav.py',"""    # Longman convention has W+/E- for unknown reasons
    L = -lon
""",""""""),('shipgrav/grav.py',"""    t = np.radians(15. * (t0 - 12) - L)
""","""    t = np.deg2rad(15. * t0 - 180. + lon)  # Longman convention has W+/E-
"""),('shipgrav/grav.py',"""    L_sun = h + 2*e1*np.sin(h - p1)
""",""""""),('shipgrav/grav.py',"""    chi1 = t + h
""","""    chi1 = h + t
    L_sun = h + 2*e1*np.sin(h - p1)
""")]),
('tide-horner','C16',[('shipgrav/grav.py',"""p = 5.835124713 + 71.01800936*T - 0.000180545*TT - 0.00000021817*TTT""","""p = 5.835124713 + T*(71.01800936 - T*(0.000180545 + 0.00000021817*T))"""),('shipgrav/grav.py',"""(np.cos(0.5*omega)**2*np.cos(L_sun - chi1) +
               np.sin(0.5*omega)**2*np.cos(L_sun + chi1))""","""(np.power(np.cos(omega/2), 2)*np.cos(chi1 - L_sun) +
               np.power(np.sin(omega/2), 2)*np.cos(chi1 + L_sun))""")]),
('eotvos-columns','C17 C14 C30',[('shipgrav/grav.py',"""    r = np.vstack((-rp*np.sin(D), np.zeros(len(rp)), -
                  rp*np.cos(D) - ht[1:-1])).T
""","""    zero = np.zeros_like(rp)
    r = np.column_stack([-rp*np.sin(D), zero, -rp*np.cos(D) - ht[1:-1]])
"""),('shipgrav/grav.py',"""    rdotdot = np.vstack((ci, np.zeros(len(ci)), ck)).T
""","""    rdotdot = np.array([ci, zero, ck]).T
""")]),
('eotvos-manual-cross','C17',[('shipgrav/grav.py',"""    w2xrdot = np.cross(2*w, rdot)
    wdotxr = np.cross(wdot, r)
""","""    w2xrdot = 2*np.cross(w, rdot)
    wdotxr = -np.cross(r, wdot)
"""),('shipgrav/grav.py',"""    a = rdotdot + w2xrdot + wdotxr + wxwxr

""","""    total = rdotdot + w2xrdot + wdotxr + wxwxr - wexwexr

"""),('shipgrav/grav.py',"""    E = (a[:, 2] - wexwexr[:, 2])*mps2mgal
    E = np.hstack((E[0], E, E[-1]))
""","""    E = np.pad(total[:, 2]*1e5, 1, mode='edge')
""")]),
('eotvos-vertical-only','C17',[('shipgrav/grav.py',"""    w2xrdot = np.cross(2*w, rdot)
    wdotxr = np.cross(wdot, r)
    wxr = np.cross(w, r)
    wxwxr = np.cross(w, wxr)
""","""    def vertical(u, v):
        return u[:, 0]*v[:, 1] - u[:, 1]*v[:, 0]
    w2xrdot = 2*vertical(w, rdot)
    wdotxr = vertical(wdot, r)
    wxr = np.cross(w, r)
    wxwxr = vertical(w, wxr)
"""),('shipgrav/grav.py',"""    a = rdotdot + w2xrdot + wdotxr + wxwxr
""","""    a = rdotdot[:, 2] + w2xrdot + wdotxr + wxwxr
"""),('shipgrav/grav.py',"""(a[:, 2] - wexwexr[:, 2])""","""(a - wexwexr[:, 2])""")]),
('eotvos-concat','C17 C14',[('shipgrav/grav.py',"""    E = np.hstack((E[0], E, E[-1]))
""","""    out = np.empty(len(E) + 2)
    out[1:-1] = E
    out[0] = E[0]
    out[-1] = E[-1]
    E = out
""")]),
('eotvos-derivative-helper','C17',[('shipgrav/grav.py',"""    dlat = center_diff(latr, 1, samp)
    ddlat = center_diff(latr, 2, samp)
    dlon = center_diff(lonr, 1, samp)
    ddlon = center_diff(lonr, 2, samp)
    dht = center_diff(ht, 1, samp)
    ddht = center_diff(ht, 2, samp)
""","""    (dlat, ddlat), (dlon, ddlon), (dht, ddht) = [
        [center_diff(x, order, samp) for order in (1, 2)] for x in (latr, lonr, ht)]
""")]),
('fa-branches','C18 C30',[('shipgrav/grav.py',"""    s2lat = np.sin(np.deg2rad(lat))**2

    if not free_water:
        return -((0.3087691 - 0.0004398*s2lat)*ht) + 7.2125e-8*(ht**2)
    else:
        return -((0.22242 - 0.0004398*s2lat)*ht) + 7.2125e-8*(ht**2)
""","""    gradient = (0.22242 if free_water else 0.3087691) - 0.0004398*np.sin(np.radians(lat))**2
    return ht*(7.2125e-8*ht - gradient)
""")]),
('wgs-sqrt','C18',[('shipgrav/grav.py',"""    num = 1 + 0.00193185265241*sinsq   # something like (b*gp - a*ge)/(a*ge)
    den = np.sqrt(1 - 0.00669437999014*sinsq)  # this is e2
    return 978032.53359*(num/den)
""","""    ge, k, e2 = 978032.53359, 0.00193185265241, 0.00669437999014
    return ge*(1 + k*sinsq)*(1 - e2*sinsq)**-0.5
""")]),
('wgs-cos2','C18',[('shipgrav/grav.py',"""    sinsq = np.sin(np.deg2rad(lat))**2

    num""","""    sinsq = 0.5*(1 - np.cos(2*np.deg2rad(lat)))

    num""")]),
('ccc-dict','C19 C14 C30',[('shipgrav/grav.py',"""    for i in range(1, len(end_inds)):  # loop continuous-time segments
""","""    for start, end in zip(end_inds[:-1] + 1, end_inds[1:] + 1):  # loop continuous-time segments
"""),('shipgrav/grav.py',"""[end_inds[i-1]+1:end_inds[i]+1]""","""[start:end]""")]),
('ccc-helper','C19',[('shipgrav/grav.py',"""def calc_cross_coupling_coefficients(""","""def _curvature(x):
    return np.convolve(np.convolve(x, tay10, 'same'), tay10, 'same')[10:-10]


def calc_cross_coupling_coefficients("""),('shipgrav/grav.py',"""        gpp = np.convolve(np.convolve(faa, tay10, 'same'), tay10, 'same')
        vccpp = np.convolve(np.convolve(vcc, tay10, 'same'), tay10, 'same')
        vepp = np.convolve(np.convolve(ve, tay10, 'same'), tay10, 'same')
        alpp = np.convolve(np.convolve(al, tay10, 'same'), tay10, 'same')
        axpp = np.convolve(np.convolve(ax, tay10, 'same'), tay10, 'same')
        levpp = np.convolve(np.convolve(level, tay10, 'same'), tay10, 'same')

        # trim the ends
        gpp = gpp[10:-10]
        vccpp = vccpp[10:-10]
        vepp = vepp[10:-10]
        alpp = alpp[10:-10]
        axpp = axpp[10:-10]
        levpp = levpp[10:-10]
""","""        gpp, vccpp, vepp, alpp, axpp, levpp = [_curvature(x) for x in (faa, vcc, ve, al, ax, level)]
""")]),
('ccc-segment-function','C19 C14',[('shipgrav/grav.py',"""    faa_tf = np.array([])
    vcc_tf = np.array([])
    ve_tf = np.array([])
    al_tf = np.array([])
    ax_tf = np.array([])
    le_tf = np.array([])  # things to fit

    for i in range(1, len(end_inds)):  # loop continuous-time segments
        faa = faa_in[end_inds[i-1]+1:end_inds[i]+1]
        vcc = vcc_in[end_inds[i-1]+1:end_inds[i]+1]
        ve = ve_in[end_inds[i-1]+1:end_inds[i]+1]
        al = al_in[end_inds[i-1]+1:end_inds[i]+1]
        ax = ax_in[end_inds[i-1]+1:end_inds[i]+1]
        level = level_in[end_inds[i-1]+1:end_inds[i]+1]
        if len(faa) < 1000:
            continue  # no point for very short segments
        # double derivatives with taylor series
        gpp = np.convolve(np.convolve(faa, tay10, 'same'), tay10, 'same')
        vccpp = np.convolve(np.convolve(vcc, tay10, 'same'), tay10, 'same')
        vepp = np.convolve(np.convolve(ve, tay10, 'same'), tay10, 'same')
        alpp = np.convolve(np.convolve(al, tay10, 'same'), tay10, 'same')
        axpp = np.convolve(np.convolve(ax, tay10, 'same'), tay10, 'same')
        levpp = np.convolve(np.convolve(level, tay10, 'same'), tay10, 'same')

        # trim the ends
        gpp = gpp[10:-10]
        vccpp = vccpp[10:-10]
        vepp = vepp[10:-10]
        alpp = alpp[10:-10]
        axpp = axpp[10:-10]
        levpp = levpp[10:-10]

        # fairly narrow filter to get rid of any high-freq noise generated by the double derivation
        filterlength = 100  # Aliod code has this as 10...but that gives VERY different cc values
        taps = int(2*filterlength)
        BM = firwin(taps, 1/taps, window='blackman')
        fgpp = lfilter(BM, 1, gpp)
        fvccpp = lfilter(BM, 1, vccpp)
        fvepp = lfilter(BM, 1, vepp)
        falpp = lfilter(BM, 1, alpp)
        faxpp = lfilter(BM, 1, axpp)
        flevpp = lfilter(BM, 1, levpp)

        # trim off filter transients
        fgpp = fgpp[taps:-taps]
        fvccpp = fvccpp[taps:-taps]
        fvepp = fvepp[taps:-taps]
        falpp = falpp[taps:-taps]
        faxpp = faxpp[taps:-taps]
        flevpp = flevpp[taps:-taps]

        faa_tf = np.append(faa_tf, fgpp)
        vcc_tf = np.append(vcc_tf, fvccpp)
        ve_tf = np.append(ve_tf, fvepp)
        al_tf = np.append(al_tf, falpp)
        ax_tf = np.append(ax_tf, faxpp)
        le_tf = np.append(le_tf, flevpp)

    faa_tf = np.array(faa_tf).flatten()
    vcc_tf = np.array(vcc_tf).flatten()
    ve_tf = np.array(ve_tf).flatten()
    al_tf = np.array(al_tf).flatten()
    ax_tf = np.array(ax_tf).flatten()
    le_tf = np.array(le_tf).flatten()
""","""    taps = 200
    BM = firwin(taps, 1/taps, window='blackman')
    inputs = {'g': faa_in, 'vcc': vcc_in, 've': ve_in, 'al': al_in, 'ax': ax_in, 'lev': level_in}
    parts = {k: [np.array([])] for k in inputs}

    for first, last in zip(end_inds[:-1], end_inds[1:]):  # loop continuous-time segments
        if last - first < 1000:
            continue  # no point for very short segments
        for k, full in inputs.items():
            seg = full[first+1:last+1]
            # double derivatives with taylor series, without the ends
            for _ in range(2):
                seg = np.convolve(seg, tay10, 'same')
            seg = seg[10:-10]
            # fairly narrow filter, without its transients
            parts[k].append(lfilter(BM, 1, seg)[taps:-taps])

    faa_tf, vcc_tf, ve_tf, al_tf, ax_tf, le_tf = [np.concatenate(parts[k]) for k in ('g', 'vcc', 've', 'al', 'ax', 'lev')]
""")]),
('ccc-no-any','C19',[('shipgrav/grav.py',"""        if np.any(tdiff > 5*samplerate):
            # 5 sec gap doesn't matter much I hope???
            end_inds = np.append(np.where(tdiff > 5*samplerate)[0], end_inds)
""","""        gaps = np.flatnonzero(tdiff > 5*samplerate)
        end_inds = np.concatenate((gaps, end_inds))
""")]),
('ccc-frame','C19',[('shipgrav/grav.py',"""    df = DataFrame({'ve': ve_tf, 'vcc': vcc_tf, 'al': al_tf,
                   'ax': ax_tf, 'lev': le_tf, 'g': -faa_tf})
    x = df[['ve', 'vcc', 'al', 'ax', 'lev']]
    y = df['g']
    x = add_constant(x)
    model = OLS(y, x).fit()
""","""    columns = dict(zip(('ve', 'vcc', 'al', 'ax', 'lev'), (ve_tf, vcc_tf, al_tf, ax_tf, le_tf)))
    df = DataFrame(columns)
    df['g'] = -1*faa_tf
    model = OLS(df['g'], add_constant(df[list(columns)])).fit()
""")]),
('diff-dict','C17 C21 C30',[('shipgrav/grav.py',"""    if n == 1:
        return (y[2:] - y[:-2])*(samp/2)
    elif n == 2:
        return (y[:-2] - 2*y[1:-1] + y[2:])*(samp**2)
    else:
        print('bad order for derivative')
        return -999
""","""    if n not in (1, 2):
        print('bad order for derivative')
        return -999
    if n == 1:
        return 0.5*samp*(y[2:] - y[:-2])
    return samp*samp*(y[2:] + y[:-2] - 2*y[1:-1])
""")]),
('diff-npdiff','C17',[('shipgrav/grav.py',"""        return (y[:-2] - 2*y[1:-1] + y[2:])*(samp**2)""","""        return np.diff(y, n=2)*samp**2""")]),
('diff-twice','C17',[('shipgrav/grav.py',"""        return (y[:-2] - 2*y[1:-1] + y[2:])*(samp**2)""","""        forward = y[1:] - y[:-1]
        return (forward[1:] - forward[:-1])*samp**2""")]),
('up-nan-where','C20 C14 C30',[('shipgrav/grav.py',"""    cacc, lacc = np.array(cacc), np.array(lacc)

    # clean out any nans in the accelerations
    cacc[np.isnan(cacc)] = 0
    lacc[np.isnan(lacc)] = 0

    # apply the mysterious on_off
    cacc[on_off > 0] = 0
    lacc[on_off > 0] = 0
""","""    cacc = np.where(np.isnan(cacc) | (on_off > 0), 0, cacc)
    lacc = np.where(np.isnan(lacc) | (on_off > 0), 0, lacc)
""")]),
('up-axis-helper','C20 C14 C30',[('shipgrav/grav.py',"""    # clean out any nans in the accelerations
    cacc[np.isnan(cacc)] = 0
    lacc[np.isnan(lacc)] = 0

    # apply the mysterious on_off
    cacc[on_off > 0] = 0
    lacc[on_off > 0] = 0

    # make the cross-axis tilt filter
    cnum, cden = _tilt_filter(cper, dt, cdamp)

    # calculate cross-axis driving term, do tilt filtering
    drive = cacc/g
    drive[np.isnan(drive)] = 0
    ctilt = lfilter(cnum, cden, drive)

    # repeat all that for the long axis
    lnum, lden = _tilt_filter(lper, dt, ldamp)
    drive = lacc/g
    drive[np.isnan(drive)] = 0
    ltilt = lfilter(lnum, lden, drive)

    # combine the pieces to get the platform up-pointing vectors
    up_vecs = _calc_up_vecs(np.arctan(ctilt), np.arctan(ltilt))

    return up_vecs
""","""    bad = on_off > 0

    def tilt(acc, per, damp):
        acc[np.isnan(acc)] = 0
        acc[bad] = 0
        num, den = _tilt_filter(per, dt, damp)
        drive = acc/g
        drive[np.isnan(drive)] = 0
        return np.arctan(lfilter(num, den, drive))

    return _calc_up_vecs(tilt(cacc, cper, cdamp), tilt(lacc, lper, ldamp))
""")]),
('up-nan-to-num','C20',[('shipgrav/grav.py',"""    drive = lacc/g
    drive[np.isnan(drive)] = 0
    ltilt = lfilter(lnum, lden, drive)
""","""    drive = lacc/g
    drive = np.where(np.isnan(drive), 0., drive)
    ltilt = lfilter(lnum, lden, drive)
""")]),
]
