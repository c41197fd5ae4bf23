[
('tilt-names','C20',[('shipgrav/grav.py',"""    # first stage substitutions
    a = (omS**2) - (om0**2)
    b = 2*damp*om0*(2/dt)
    c = 4/(dt**2)
    d = om0**2

    # second stage substitutions
    d0 = b + c + d
    b0 = (a - b)/d0
    b1 = 2*a/d0
    b2 = (a + b)/d0
    a1 = 2*(d - c)/d0
    a2 = (c + d - b)/d0

    num = np.array([b0, b1, b2])
    den = np.array([1, a1, a2])

    return num, den
""","""    k = 2/dt
    drive, resist = omS**2 - om0**2, 2*damp*om0*k
    den = np.array([k*k + resist + om0*om0, 2*(om0*om0 - k*k), k*k + om0*om0 - resist])
    num = np.array([drive - resist, 2*drive, drive + resist])
    return num/den[0], den/den[0]
""")]),
('tilt-damp','C20 C30',[('shipgrav/grav.py',"""    if not damp:
        damp = np.sqrt(2)/2
""","""    damp = damp or 1/np.sqrt(2)
"""),('shipgrav/grav.py',"""    w0 = (2*np.pi)/per
    ws = 1/np.sqrt(6371100/9.8)

    om0 = (2/dt)*np.tan(w0*dt/2)
    omS = (2/dt)*np.tan(ws*dt/2)
""","""    def warp(w):
        return 2/dt*np.tan(w*dt/2)
    om0 = warp(2*np.pi/per)
    omS = warp(np.sqrt(9.8/6371100))
""")]),
('upvec-vector','C20 C14',[('shipgrav/grav.py',"""    for i in range(n):
        # rotation matrics
        rotc = np.array([[cc[i], 0, -sc[i]], [0, 1, 0], [sc[i], 0, cc[i]]])
        rotl = np.array([[1, 0, 0], [0, cl[i], -sl[i]], [0, sl[i], cl[i]]])

        # alternate order of rotations for reasons that I do not understand
        plat_up = [0, 0, 1]  # start with vertical platform
        if i % 2 == 0:
            plat_up = np.matmul(rotc, np.matmul(rotl, plat_up))
        else:
            plat_up = np.matmul(rotl, np.matmul(rotc, plat_up))

        up_vecs[:, i] = plat_up
""","""    even = np.arange(n) % 2 == 0
    up_vecs[0] = np.where(even, -sc*cl, -sc)
    up_vecs[1] = np.where(even, -sl, -sl*cc)
    up_vecs[2] = cc*cl
""")]),
('upvec-matrix-op','C20',[('shipgrav/grav.py',"""        if i % 2 == 0:
            plat_up = np.matmul(rotc, np.matmul(rotl, plat_up))
        else:
            plat_up = np.matmul(rotl, np.matmul(rotc, plat_up))

        up_vecs[:, i] = plat_up
""","""        first, second = (rotc, rotl) if i % 2 else (rotl, rotc)
        up_vecs[:, i] = second @ (first @ np.array(plat_up))
""")]),
('upvec-stack','C20',[('shipgrav/grav.py',"""    up_vecs = np.zeros((3, n))
""","""    ups = []
"""),('shipgrav/grav.py',"""        up_vecs[:, i] = plat_up

    return up_vecs
""","""        ups.append(plat_up)

    return np.array(ups).T
""")]),
('parker1-gen','C22 C14',[('shipgrav/grav.py',"""    npower = 5
    SUMtopo = copy(Ftopo)
    for ip in range(2, npower+1):  # summation per eq. 11.41 in Blakely
        Ftopo = np.fft.fft(padtopo**ip)
        Ftopo = Ftopo*(kwn1**(ip-1))/factorial(ip)

        SUMtopo = SUMtopo + Ftopo
""","""    SUMtopo = Ftopo + sum(np.fft.fft(padtopo**ip)*kwn1**(ip-1)/factorial(ip) for ip in range(2, 6))
""")]),
('parker1-while','C22',[('shipgrav/grav.py',"""    for ip in range(2, npower+1):  # summation per eq. 11.41 in Blakely
        Ftopo = np.fft.fft(padtopo**ip)
        Ftopo = Ftopo*(kwn1**(ip-1))/factorial(ip)

        SUMtopo = SUMtopo + Ftopo
""","""    ip, fact, power = 2, 1, padtopo
    while ip <= npower:
        fact *= ip
        power = power*padtopo
        SUMtopo += np.fft.fft(power)*kwn1**(ip-1)/fact
        ip += 1
""")]),
('parker1-pad','C22',[('shipgrav/grav.py',"""    wing = np.ones(2*len(topo))  # *** extra padding

    # extend or mirror the profile
    padtopo = np.append(topo[0]*wing, np.append(topo, topo[-1]*wing))
    # padtopo = np.append(baselev*wing,np.append(topo,baselev*wing))
    # padtopo = np.append(topo,topo[::-1])
    padtopo = padtopo - baselev""","""    padtopo = np.pad(topo, 2*nx, mode='edge') - baselev""")]),
('parker1-concat','C22',[('shipgrav/grav.py',"""    padtopo = np.append(topo[0]*wing, np.append(topo, topo[-1]*wing))
""","""    padtopo = np.concatenate([np.full(2*nx, topo[0]), topo, np.full(2*nx, topo[-1])])
"""),('shipgrav/grav.py',"""    data = np.fft.ifft(data)  # inverse Fourier transform
    anom = np.real(data[2*nx:3*nx])*100  # factor of 100 for mgal output

    return anom
""","""    return 100*np.fft.ifft(data).real[2*nx:-2*nx]
""")]),
('parker1-dx','C22',[('shipgrav/grav.py',"""    dx = (xtopo[-1]-xtopo[0])/(len(xtopo)-1)
    nx = len(xtopo)
""","""    nx = len(xtopo)
    dx = (xtopo[-1]-xtopo[0])/(nx-1)
"""),('shipgrav/grav.py',"""    kwn1 = 2*np.pi*np.abs(np.fft.fftfreq(nxt, dx))
""","""    kwn1 = np.abs(2*np.pi*np.fft.fftfreq(nxt)/dx)
""")]),
('fold-pad','C22 C14',[('shipgrav/grav.py',"""        Z = np.vstack((Z, np.flipud(Z)))  # fold in X
        Z = np.hstack((Z, np.fliplr(Z)))  # fold in Y
""","""        Z = np.concatenate((Z, Z[::-1]), axis=0)  # fold in X
        Z = np.concatenate((Z, Z[:, ::-1]), axis=1)  # fold in Y
""")]),
('fold-grid','C22',[('shipgrav/grav.py',"""    kwn1 = np.zeros((nxt, nyt))
    for j in range(nyt):
        kwn1[:, j] = np.sqrt(xxk + yyk[j])

    kwn1 = kwn1.T
""","""    kwn1 = np.sqrt(xxk[None, :] + yyk[:, None])
""")]),
('fold-meshgrid','C22',[('shipgrav/grav.py',"""    kwn1 = np.zeros((nxt, nyt))
    for j in range(nyt):
        kwn1[:, j] = np.sqrt(xxk + yyk[j])

    kwn1 = kwn1.T
""","""    xk, yk = np.meshgrid(xxk, yyk)
    kwn1 = np.sqrt(xk + yk)
""")]),
('fold-sum','C22 C30',[('shipgrav/grav.py',"""    csum = np.copy(data)  # for adding summation terms
    fact = 1
    for i in range(2, npower+1):
        fact = fact*i
        data = np.copy(Z)**i
        data = np.fft.fft2(data)

        data = data*(kwn1**(i-1))/fact
        k, l = np.where(kwn1 == 0)
        data[k, l] = 0

        csum = csum + np.copy(data)
""","""    csum = data
    for i in range(2, npower+1):
        term = np.fft.fft2(Z**i)*kwn1**(i-1)/factorial(i)
        term[kwn1 == 0] = 0
        csum = csum + term
""")]),
('fold-sizes','C22',[('shipgrav/grav.py',"""    if ifold:
        nxt = nx*2
        nyt = ny*2
    else:
        nxt = nx
        nyt = ny
""","""    factor = 2 if ifold else 1
    nxt, nyt = factor*nx, factor*ny
"""),('shipgrav/grav.py',"""    zmax = max(Z.flatten())   # get min and max for scaling
    zmin = min(Z.flatten())
    if zmax < -1e10:
        zmax = -1e10
    if zmin > 1e10:
        zmin = 1e10

""","")]),
('layer-broadcast','C23 C14',[('shipgrav/grav.py',"""            k = np.sqrt(kx**2 + ky**2)
            if k == 0:
                crho[i, j] = 0
            else:
                crho[i, j] = ifrho[i, j]*grav*(np.exp(-k*z1)-np.exp(-k*z2))/k
""","""            k = np.hypot(kx, ky)
            transfer = grav*(np.exp(-k*z1)-np.exp(-k*z2))/k if k > 0 else 0
            crho[i, j] = ifrho[i, j]*transfer
""")]),
('layer-kgrid','C23',[('shipgrav/grav.py',"""    crho = np.empty((ny, nx), dtype=complex)
    for j in range(nx):
        for i in range(ny):
            kx, ky = _kvalue(i, j, nx, ny, dkx, dky)
            k = np.sqrt(kx**2 + ky**2)
            if k == 0:
                crho[i, j] = 0
            else:
                crho[i, j] = ifrho[i, j]*grav*(np.exp(-k*z1)-np.exp(-k*z2))/k
""","""    ks = np.zeros((ny, nx))
    for i, j in np.ndindex(ny, nx):
        kx, ky = _kvalue(i, j, nx, ny, dkx, dky)
        ks[i, j] = np.sqrt(kx**2 + ky**2)
    crho = np.zeros((ny, nx), dtype=complex)
    nz = ks != 0
    crho[nz] = ifrho[nz]*grav*(np.exp(-ks[nz]*z1)-np.exp(-ks[nz]*z2))/ks[nz]
""")]),
('kvalue-ternary','C23',[('shipgrav/grav.py',"""    nyqx = nx/2+1
    nyqy = ny/2+1

    if j <= nyqx:
        kx = (j)*dkx
    else:
        kx = (j-nx)*dkx

    if i <= nyqy:
        ky = (i)*dky
    else:
        ky = (i-ny)*dky
    return kx, ky
""","""    def signed(m, n):
        return m - n if m > n/2 + 1 else m
    return signed(j, nx)*dkx, signed(i, ny)*dky
""")]),
('half-age-helper','C24 C14 C30',[('shipgrav/grav.py',"""    if time:
        x = x*1e6*secyr  # convert Myr to sec
    elif not time:
        x = abs(x)/(u/secyr)  # convert m to sec
""","""    x = _seconds(x, u, time)
"""),('shipgrav/grav.py',"""def therm_halfspace(""","""def _seconds(x, u, time):
    secyr = 365.25*24*3600
    return x*1e6*secyr if time else np.abs(x)*secyr/u


def therm_halfspace(""")]),
('half-sqrt','C24',[('shipgrav/grav.py',"""    T = To + (Tm-To) * erf(Z/(2*(k*X)**.5))

    # seafloor subsidence
    W = ((2*rhom*a*(Tm-To))/(rhom-rhow)) * \\
        (((k*X[0, :])/(np.pi))**.5)
""","""    T = Tm*erf(0.5*Z/np.sqrt(k*X))

    # seafloor subsidence
    W = 2*rhom*a*Tm/(rhom-rhow)*np.sqrt(k*x/np.pi)
""")]),
('half-broadcast','C24 C14',[('shipgrav/grav.py',"""    X, Z = np.meshgrid(x, z)  # grid up x,z pairs

    # mantle temperature
    T = To + (Tm-To) * erf(Z/(2*(k*X)**.5))
""","""    X = np.tile(x, (len(z), 1))
    Z = np.asarray(z)[:, np.newaxis]

    # mantle temperature
    T = To + (Tm-To) * erf(Z/(2*(k*X)**.5))
""")]),
('plate-loop','C24 C14',[('shipgrav/grav.py',"""    Tterm2 = (2/np.pi)*np.exp(-k*(np.pi**2)*t/(zL0**2))*np.sin(np.pi*Z/zL0)
    Tterm3 = (1/np.pi)*np.exp(-4*k*(np.pi**2)*t/(zL0**2))*np.sin(2*np.pi*Z/zL0)
    Tterm4 = (2/np.pi/3)*np.exp(-9*k*(np.pi**2)
                                * t/(zL0**2))*np.sin(3*np.pi*Z/zL0)
    Tterm5 = (2/np.pi/4)*np.exp(-16*k*(np.pi**2)
                                * t/(zL0**2))*np.sin(4*np.pi*Z/zL0)
    Tterm6 = (2/np.pi/5)*np.exp(-25*k*(np.pi**2)
                                * t/(zL0**2))*np.sin(5*np.pi*Z/zL0)
    Tterm7 = (2/np.pi/6)*np.exp(-36*k*(np.pi**2)
                                * t/(zL0**2))*np.sin(6*np.pi*Z/zL0)
    Tterm8 = (2/np.pi/7)*np.exp(-49*k*(np.pi**2)
                                * t/(zL0**2))*np.sin(7*np.pi*Z/zL0)
    Tterm9 = (2/np.pi/8)*np.exp(-64*k*(np.pi**2)
                                * t/(zL0**2))*np.sin(8*np.pi*Z/zL0)
    Tterm10 = (2/np.pi/9)*np.exp(-81*k*(np.pi**2)
                                 * t/(zL0**2))*np.sin(9*np.pi*Z/zL0)
    Tterm11 = (2/np.pi/10)*np.exp(-100*k*(np.pi**2)
                                  * t/(zL0**2))*np.sin(10*np.pi*Z/zL0)

    T = To + (Tm - To)*(Z/zL0 + Tterm2 + Tterm3 + Tterm4 + Tterm5 + Tterm6 + Tterm7 +
                        Tterm8 + Tterm9 + Tterm10 + Tterm11)

    mantle = np.where(Z > zL0)[0]
    T[mantle] = Tm

    Wterm2 = (4/np.pi**2)*np.exp(-k*(np.pi**2)*t[0, :]/(zL0**2))
    Wterm3 = (4/(9*np.pi**2))*np.exp(-k*9*(np.pi**2)*t[0, :]/(zL0**2))
    Wterm4 = (4/(25*np.pi**2))*np.exp(-k*25*(np.pi**2)*t[0, :]/(zL0**2))

    W = ((rhom*a*(Tm-To)*zL0)/(rhom-rhow)) * (1./2 - Wterm2 - Wterm3 - Wterm4)
""","""    tau = k*np.pi**2*t/zL0**2
    shape = Z/zL0
    for n in range(1, 11):
        shape = shape + 2/(n*np.pi)*np.exp(-n*n*tau)*np.sin(n*np.pi*Z/zL0)
    T = np.where(Z > zL0, Tm, To + (Tm - To)*shape)

    decay = sum(4/(n*np.pi)**2*np.exp(-tau[0]*n**2) for n in (1, 3, 5))
    W = rhom*a*(Tm-To)*zL0/(rhom-rhow)*(0.5 - decay)
""")]),
('plate-mask','C24',[('shipgrav/grav.py',"""    mantle = np.where(Z > zL0)[0]
    T[mantle] = Tm
""","""    T[Z > zL0] = Tm
""")]),
('isotherm-broadcast','C24 C14 C30',[('shipgrav/grav.py',"""    ziso = np.zeros((len(T), len(x)))
    for i in range(len(T)):  # loop isotherms, find depths
        for j in range(len(x)):
            ziso[i, j] = z[np.argmin(abs(Tp[:, j]-T[i]))]

    return ziso
""","""    return np.array([[z[np.abs(Tp[:, j] - iso).argmin()] for j in range(len(x))] for iso in T])
""")]),
('isotherm-axis','C24',[('shipgrav/grav.py',"""    ziso = np.zeros((len(T), len(x)))
    for i in range(len(T)):  # loop isotherms, find depths
        for j in range(len(x)):
            ziso[i, j] = z[np.argmin(abs(Tp[:, j]-T[i]))]
""","""    ziso = np.zeros((len(T), len(x)))
    for i, iso in enumerate(T):  # loop isotherms, find depths
        ziso[i] = z[np.argmin(np.abs(Tp - iso), axis=0)]
""")]),
('crust-wavenumbers','C25 C14 C30',[('shipgrav/grav.py',"""    kwn1 = np.zeros((nx, ny))  # compute wavenumbers in 2D
    for j in range(ny):
        yj = j
        if j > mfy:
            yj = mfy*2 - j
        yyk = kint2**2 * yj**2

        for i in range(nx):
            xi = i
            if i > mfx:
                xi = mfx*2 - i
            xxk = kint1**2 * xi**2

            kwn1[i, j] = np.sqrt(xxk + yyk)
""","""    i = np.arange(nx)
    j = np.arange(ny)
    kx = kint1*np.minimum(i, nx - i)
    ky = kint2*np.minimum(j, ny - j)
    kwn1 = np.sqrt(kx[:, None]**2 + ky[None, :]**2)
""")]),
('crust-taper-helper','C25 C14',[('shipgrav/grav.py',"""    for j in range(ny):
        for i in range(nx):
            wgt = 1
            if kwn1[i, j] > kcut2:
                wgt = 0
            elif kwn1[i, j] > kcut1 and kwn1[i, j] <= kcut2:
                t = (kwn1[i, j]-kcut1)/dkcut*np.pi
                wgt = (np.cos(t)+1)/2

            ur_arr_ft[i, j] = ur_arr_ft[i, j] * \\
                np.exp(kwn1[i, j]*zdown)*topo1*wgt
""","""    t = np.clip((kwn1 - kcut1)/dkcut, 0, 1)*np.pi
    wgt = (np.cos(t) + 1)/2
    ur_arr_ft = ur_arr_ft*np.exp(kwn1*zdown)*topo1*wgt
""")]),
('crust-taper-where','C25',[('shipgrav/grav.py',"""    for j in range(ny):
        for i in range(nx):
            wgt = 1
            if kwn1[i, j] > kcut2:
                wgt = 0
            elif kwn1[i, j] > kcut1 and kwn1[i, j] <= kcut2:
                t = (kwn1[i, j]-kcut1)/dkcut*np.pi
                wgt = (np.cos(t)+1)/2

            ur_arr_ft[i, j] = ur_arr_ft[i, j] * \\
                np.exp(kwn1[i, j]*zdown)*topo1*wgt
""","""    wgt = np.where(kwn1 > kcut2, 0, np.where(kwn1 > kcut1, 0.5*(1 + np.cos(np.pi*(kwn1-kcut1)/dkcut)), 1))
    ur_arr_ft *= wgt*np.exp(kwn1*zdown)*topo1
""")]),
('crust-back-vector','C25 C14',[('shipgrav/grav.py',"""        for j in range(ny):
            for i in range(nx):
                ur_arr_ft[i, j] = -ur_arr_ft[i, j] * \\
                    np.exp(-kwn1[i, j]*zdown)/topo1
        ur_back = np.fft.fft2(ur_arr_ft)
        ur_back = ur_back.reshape(-1, 1)
        ur_back = ur_back*prod*1000+ave
""","""        ur_back = np.fft.fft2(-ur_arr_ft*np.exp(-kwn1*zdown)/topo1).reshape(-1, 1)
        ur_back = 1000*prod*ur_back + ave
""")]),
('crust-early-return','C25',[('shipgrav/grav.py',"""    if not back:
        return ur_arr_2
    elif back:  # reverse the transform and upward continute to check gravity recovery
        for""","""    if back:  # reverse the transform and upward continute to check gravity recovery
        for"""),('shipgrav/grav.py',"""        return ur_arr_2[::-1], ur_back[::-1]""","""        return ur_arr_2[::-1], ur_back[::-1]
    return ur_arr_2""")]),
('en-nan-helper','C21 C14',[('shipgrav/nav.py',"""    # Nan the edges bc they are unreliable
    vn[:5] = np.nan
    vn[-5:] = np.nan
    ve[:5] = np.nan
    ve[-5:] = np.nan
""","""    # Nan the edges bc they are unreliable
    for v in (vn, ve):
        v[:5] = v[-5:] = np.nan
""")]),
('en-where','C21 C14',[('shipgrav/nav.py',"""    # Nan the edges bc they are unreliable
    vn[:5] = np.nan
    vn[-5:] = np.nan
    ve[:5] = np.nan
    ve[-5:] = np.nan
""","""    # Nan the edges bc they are unreliable
    i = np.arange(len(lat))
    edge = (i < 5) | (i >= len(lat) - 5)
    vn = np.where(edge, np.nan, vn)
    ve = np.where(edge, np.nan, ve)
""")]),
('en-radii','C21 C30',[('shipgrav/nav.py',"""    vn = a*(1 - e2)*(dlat/(e2term**3))*freq
    ve = a*dlon*(np.cos(np.deg2rad(lat))/e2term)*freq
""","""    meridian = a*(1 - e2)/(1 - e2*sin2lat)**1.5
    parallel = a*np.cos(np.radians(lat))/np.sqrt(1 - e2*sin2lat)
    vn, ve = freq*meridian*dlat, freq*parallel*dlon
""")]),
('course-hypot','C21',[('shipgrav/nav.py',"""    vel = np.sqrt(ve**2 + vn**2)
""","""    vel = np.hypot(ve, vn)
"""),('shipgrav/nav.py',"""np.rad2deg(np.arctan2(ve, vn))""","""np.degrees(np.arctan2(ve, vn))""")]),
('course-complex','C21',[('shipgrav/nav.py',"""    heading = np.rad2deg(np.arctan2(ve, vn))
    vel = np.sqrt(ve**2 + vn**2)
""","""    heading = 180/np.pi*np.arctan2(ve, vn)
    vel = (ve*ve + vn*vn)**0.5
""")]),
('rotate-matrix','C21',[('shipgrav/nav.py',"""    ac = (accE*cosa) - (accN*sina)
    al = (accE*sina) + (accN*cosa)
    return ac, al""","""    rot = [[cosa, -sina], [sina, cosa]]
    ac, al = [row[0]*accE + row[1]*accN for row in rot]
    return ac, al""")]),
]
