IO = 'shipgrav/io.py'
SHIPS = """            if ship == 'Atlantis':
                lon, lat = _navcoords(allnav, talker)
                timest = _navdate_Atlantis(allnav, talker)
            elif ship == 'NBP':
                lon, lat = _navcoords(allnav, talker)
                timest = _navdate_NBP(allnav, talker)
            elif ship == 'Thompson':
                lon, lat = _navcoords(allnav, talker)
                timest = _navdate_Thompson(allnav, talker)
            elif ship == 'Revelle':
                lon, lat = _navcoords(allnav, talker)
                timest = _navdate_Revelle(allnav, talker)
            elif ship == 'Ride':
                lon, lat = _navcoords(allnav, talker)
                timest = _navdate_Ride(allnav, talker)
            elif ship == 'Langseth':
                lon, lat = _navcoords(allnav, talker)
                timest = _navdate_Langseth(allnav, talker)
            elif ship == 'Sikuliaq' and talker == 'GPGGA':
                lon, lat = _navcoords(allnav, talker)
                timest = _navdate_Ride(allnav, talker)
            else:  # in theory we never get to this option, but catch just in case
                print(
                    'R/V %s not yet supported for nav read; must supply read function' % ship)
                return -999
"""
NAV = 'C02 C03 C04 C05 C06 C07 C08 C01 C14 C15 C30 C31'
HEAD = """    inav = [talker in s for s in allnav]  # find lines of file with this talker
    subnav = allnav[inav]  # select only those lines
    N = len(subnav)
    # array for timestamps, as datetime objects
    timest = np.empty(N, dtype=datetime)
"""
L = []
L.append(('nav-dispatch-table', NAV, [(IO, SHIPS, """            parser = _nav_parser(ship, talker)
            if parser is None:
                print(
                    'R/V %s not yet supported for nav read; must supply read function' % ship)
                return -999
            lon, lat = _navcoords(allnav, talker)
            timest = parser(allnav, talker)
"""), (IO, "def _clock_time(allnav, talker):", """def _nav_parser(ship, talker):
    \"\"\"function that reads the timestamps of a ship's navigation\"\"\"
    parsers = {'Atlantis': _navdate_Atlantis, 'NBP': _navdate_NBP, 'Thompson': _navdate_Thompson,
               'Revelle': _navdate_Revelle, 'Ride': _navdate_Ride, 'Langseth': _navdate_Langseth}
    if talker == 'GPGGA':
        parsers['Sikuliaq'] = _navdate_Ride
    return parsers.get(ship)


def _clock_time(allnav, talker):""")]))
L.append(('nav-coords-first', NAV, [(IO, SHIPS, """            if ship == 'Atlantis':
                navdate = _navdate_Atlantis
            elif ship == 'NBP':
                navdate = _navdate_NBP
            elif ship == 'Thompson':
                navdate = _navdate_Thompson
            elif ship == 'Revelle':
                navdate = _navdate_Revelle
            elif ship == 'Ride' or (ship == 'Sikuliaq' and talker == 'GPGGA'):
                navdate = _navdate_Ride
            elif ship == 'Langseth':
                navdate = _navdate_Langseth
            else:
                print(
                    'R/V %s not yet supported for nav read; must supply read function' % ship)
                return -999
            lon, lat = _navcoords(allnav, talker)
            timest = navdate(allnav, talker)
""")]))
L.append(('nav-read-helper', NAV, [(IO, """        with open(fpath, 'r') as f:
            allnav = np.array(f.readlines())  # read the entire file
""", """        allnav = _read_lines(fpath)
"""), (IO, "def _clock_time(allnav, talker):", """def _read_lines(path):
    with open(path) as f:
        return np.array(list(f))


def _clock_time(allnav, talker):""")]))
L.append(('nav-readlines-comp', NAV, [(IO, """        with open(fpath, 'r') as f:
            allnav = np.array(f.readlines())  # read the entire file
""", """        f = open(fpath, 'r')
        try:
            allnav = np.array([ln for ln in f])
        finally:
            f.close()
""")]))
L.append(('nav-lists-concat', NAV, [(IO, """    timetime = np.array([])
    lonlon = np.array([])
    latlat = np.array([])
""", """    times, lons, lats = [], [], []
"""), (IO, """        timetime = np.append(timetime, sec_time)
        lonlon = np.append(lonlon, lon_out)
        latlat = np.append(latlat, lat_out)
""", """        times.append(sec_time)
        lons.append(lon_out)
        lats.append(lat_out)

    timetime = np.concatenate(times) if times else np.array([])
    lonlon = np.concatenate(lons) if lons else np.array([])
    latlat = np.concatenate(lats) if lats else np.array([])
""")]))
L.append(('nav-talker-get', NAV, [(IO, """    if talker is not None:
        pass  # use provided talker if it's there
    else:
        if ship not in nav_str.keys():
            print('talker not known for R/V %s' % ship)
            return -999
        else:
            talker = nav_str[ship]
""", """    if talker is None:
        talker = nav_str.get(ship)
        if talker is None:
            print('talker not known for R/V %s' % ship)
            return -999
""")]))
L.append(('nav-isinstance', NAV, [(IO, """    if type(pathlist) == str:
        # if just one path is given, make it into a list
        pathlist = [pathlist,]
""", """    pathlist = [pathlist] if isinstance(pathlist, str) else pathlist
""")]))
L.append(('nav-database-helper', 'C01 C02 C03 C05 C11 C14 C15 C30 C31', [(IO, """    moddir = os.path.dirname(__file__)
    import tomli as tm
    with open(os.path.join(moddir, 'database.toml'), 'rb') as f:
        info = tm.load(f)
    nav_str = info['nav-talkers']
""", """    nav_str = _database()['nav-talkers']
"""), (IO, """    moddir = os.path.dirname(__file__)
    import tomli as tm
    with open(os.path.join(moddir, 'database.toml'), 'rb') as f:
        info = tm.load(f)
    # get instrument scaling factors from database.toml
    sc_fac = info['BGM-scale']
""", """    # get instrument scaling factors from database.toml
    sc_fac = _database()['BGM-scale']
"""), (IO, "def _clock_time(allnav, talker):", """def _database():
    import tomli as tm
    path = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'database.toml')
    with open(path, 'rb') as f:
        return tm.load(f)


def _clock_time(allnav, talker):""")]))
L.append(('nav-database-loads', 'C02 C03 C05 C11 C14 C15 C31', [(IO, """    with open(os.path.join(moddir, 'database.toml'), 'rb') as f:
        info = tm.load(f)
    nav_str = info['nav-talkers']
""", """    with open(os.path.join(moddir, 'database.toml'), encoding='utf-8') as f:
        nav_str = tm.loads(f.read())['nav-talkers']
""")]))
L.append(('nav-stamps-pandas', 'C01 C05 C04 C14', [(IO, """    gps_nav['stamps'] = np.array([datetime.fromtimestamp(e, timezone.utc) for e in timetime[idx]],
                                 dtype=datetime)
""", """    stamps = []
    for e in timetime[idx]:
        stamps.append(datetime.fromtimestamp(e, tz=timezone.utc))
    gps_nav['stamps'] = np.array(stamps, dtype=object)
""")]))
L.append(('nav-unused-dropped', NAV, [(IO, """        samp_time = np.arange(min(sec_time), max(
            sec_time), sampling)  # fenceposting?
""", "")]))
L.append(('nav-frame-late', 'C05 C04 C13 C01 C14', [(IO, """    _, idx = np.unique(timetime, return_index=True)
    gps_nav = pd.DataFrame(
        {'time_sec': timetime[idx], 'lon': lonlon[idx], 'lat': latlat[idx]})
    gps_nav['stamps']""", """    timetime, idx = np.unique(timetime, return_index=True)
    lonlon, latlat = lonlon[idx], latlat[idx]
    idx = np.arange(len(timetime))
    gps_nav = pd.DataFrame(dict(time_sec=timetime, lon=lonlon, lat=latlat))
    gps_nav['stamps']""")]))
L.append(('nav-jump-any', 'C05 C04 C13 C14', [(IO, """    ilocs = np.where(abs(np.diff(gps_nav['lon'])) > 1)[0]
    if len(ilocs) > 0:
        # try""", """    if np.any(np.abs(np.diff(gps_nav['lon'].values)) > 1):
        # try""")]))
L.append(('nav-decimate-slice', NAV, [(IO, """        if decimate:
            sec_time = sec_time[::decimate]
            lon_out = lon_out[::decimate]
            lat_out = lat_out[::decimate]
""", """        step = decimate or 1
        sec_time, lon_out, lat_out = sec_time[::step], lon_out[::step], lat_out[::step]
""")]))
L.append(('clock-select-helper', 'C07 C08 C05 C06 C01', [(IO, """    inav = [talker in s for s in allnav]  # find lines of file with this talker
    subnav = allnav[inav]  # select only those lines
    # indices in allnav of the lines that are selected
    inav = np.where(inav)[0]
    N = len(subnav)
    hour = np.zeros(N, dtype=int)
    mint = np.zeros(N, dtype=int)
    sec = np.zeros(N, dtype=int)
    msec = np.zeros(N, dtype=int)

    for i in range(N):
        post = subnav[i].split(talker)[-1].lstrip().split(',')
""", """    subnav = _talker_lines(allnav, talker)
    hour, mint, sec, msec = (np.zeros(len(subnav), dtype=int) for _ in range(4))

    for i, line in enumerate(subnav):
        post = line.split(talker)[-1].lstrip().split(',')
"""), (IO, "def _clock_time(allnav, talker):", """def _talker_lines(allnav, talker):
    \"\"\"lines of a file that have this talker\"\"\"
    return allnav[[talker in s for s in allnav]]


def _clock_time(allnav, talker):""")]))
L.append(('clock-strftime-free', 'C07 C08 C05', [(IO, """        hour[i] = int(post[0][:2])   # hour
        mint[i] = int(post[0][2:4])  # min
        sec0, _, frac = post[0][4:].partition('.')  # sec.fraction
        msec[i] = int(frac[:6].ljust(6, '0'))  # microsec, for any number of digits
        sec[i] = int(sec0)  # sec
""", """        clock = post[0]
        hour[i], mint[i] = int(clock[0:2]), int(clock[2:4])
        parts = clock[4:].split('.', 1)
        frac = parts[1] if len(parts) > 1 else ''
        sec[i] = int(parts[0])
        msec[i] = int((frac + '000000')[:6])
""")]))
L.append(('clock-lists', 'C07 C08 C05', [(IO, """    hour = np.zeros(N, dtype=int)
    mint = np.zeros(N, dtype=int)
    sec = np.zeros(N, dtype=int)
    msec = np.zeros(N, dtype=int)

    for i in range(N):
        post = subnav[i].split(talker)[-1].lstrip().split(',')
        if post[0] == '':
            post = post[1:]
        hour[i] = int(post[0][:2])   # hour
        mint[i] = int(post[0][2:4])  # min
        sec0, _, frac = post[0][4:].partition('.')  # sec.fraction
        msec[i] = int(frac[:6].ljust(6, '0'))  # microsec, for any number of digits
        sec[i] = int(sec0)  # sec

    return hour, mint, sec, msec
""", """    hour, mint, sec, msec = [], [], [], []

    for ln in subnav:
        post = ln.split(talker)[-1].lstrip().split(',')
        post = post[1:] if post[0] == '' else post
        hour.append(int(post[0][:2]))
        mint.append(int(post[0][2:4]))
        whole, _, frac = post[0][4:].partition('.')
        sec.append(int(whole))
        msec.append(int(frac[:6].ljust(6, '0')))

    return (np.array(hour, dtype=int), np.array(mint, dtype=int), np.array(sec, dtype=int),
            np.array(msec, dtype=int))
""")]))
L.append(('atlantis-search', 'C08 C01 C05', [(IO, """        date = re.findall(r'NAV (\\d{4})/(\\d{2})/(\\d{2})', pre)[0]
        year = int(date[0])  # year
        mon = int(date[1])  # month
        day = int(date[2])  # day
""", """        year, mon, day = (int(x) for x in re.search(r'NAV (\\d{4})/(\\d{2})/(\\d{2})', pre).groups())
""")]))
L.append(('atlantis-compiled', 'C08 C01 C05', [(IO, """        date = re.findall(r'NAV (\\d{4})/(\\d{2})/(\\d{2})', pre)[0]
        year = int(date[0])  # year
""", """        date = pat.findall(pre)[0]
        year = int(date[0])  # year
"""), (IO, """    hour, mint, sec, msec = _clock_time(allnav, talker)

    inav = [talker in s for s in allnav]  # find lines of file with this talker
    subnav = allnav[inav]  # select only those lines
    N = len(subnav)
    # array for timestamps, as datetime objects
    timest = np.empty(N, dtype=datetime)

    for i in range(N):
        pre = subnav[i].split(talker)[0]
        date = pat""", """    hour, mint, sec, msec = _clock_time(allnav, talker)
    pat = re.compile(r'NAV (\\d{4})/(\\d{2})/(\\d{2})')

    inav = [talker in s for s in allnav]  # find lines of file with this talker
    subnav = allnav[inav]  # select only those lines
    N = len(subnav)
    # array for timestamps, as datetime objects
    timest = np.empty(N, dtype=datetime)

    for i in range(N):
        pre = subnav[i].split(talker)[0]
        date = pat""")]))
L.append(('nbp-timedelta', 'C08 C01 C05', [(IO, """        year = '20' + date[0]
        doy = date[1]  # doy
        timest[i] = datetime.strptime('%s-%s-%02d:%02d:%02d:%06d' %
                                      (year, doy, hour[i],
                                       mint[i], sec[i], msec[i]),
                                      '%Y-%j-%H:%M:%S:%f')
        timest[i] = timest[i].replace(tzinfo=timezone.utc)
""", """        yr, doy = date
        clock = f'20{yr}-{doy}-{hour[i]:02d}:{mint[i]:02d}:{sec[i]:02d}:{msec[i]:06d}'
        timest[i] = datetime.strptime(clock, '%Y-%j-%H:%M:%S:%f').replace(tzinfo=timezone.utc)
""")]))
L.append(('thompson-zip', 'C08 C01 C05 C07', [(IO, """        date = re.findall(r'(\\d{2})/(\\d{2})/(\\d{4}),*', pre)[0]
        year = int(date[2])
        mon = int(date[0])
        day = int(date[1])
        timest[i] = datetime(year, mon, day, hour[i],
                             mint[i], sec[i], tzinfo=timezone.utc)
""", """        mon, day, year = map(int, re.findall(r'(\\d{2})/(\\d{2})/(\\d{4}),*', pre)[0])
        timest[i] = datetime(year, mon, day, hour[i],
                             mint[i], sec[i], tzinfo=timezone.utc)
""")]))
L.append(('revelle-ternary', 'C08 C01 C05', [(IO, """        if i != 0:
            j = inds[i-1]  # index of previous talker line
        if i == 0:
            j = -1
""", """        j = inds[i-1] if i > 0 else -1  # index of previous talker line
""")]))
L.append(('revelle-match', 'C08 C01 C05', [(IO, """            if re.match(r'(\\d{4})-(\\d{2})-(\\d{2})T*', before):
                date = re.findall(r'(\\d{4})-(\\d{2})-(\\d{2})T*', before)[0]
                year = int(date[0])
                mon = int(date[1])
                day = int(date[2])
                timest[i]""", """            m = re.match(r'(\\d{4})-(\\d{2})-(\\d{2})T*', before)
            if m:
                year, mon, day = int(m.group(1)), int(m.group(2)), int(m.group(3))
                timest[i]""")]))
L.append(('revelle-reversed', 'C08 C01 C05', [(IO, """        for k in range(inds[i]-1, j, -1):  # step""", """        for k in reversed(range(j+1, inds[i])):  # step""")]))
L.append(('ride-hoist', 'C08 C01 C05 C02', [(IO, """    for i in range(N):
        if talker == 'INGGA':  # on Ride, uses posix timestamps
            date = re.findall(r'(\\d+(\\.\\d*)?) \\$%s' % talker, subnav[i])[0]
            timest[i] = datetime.fromtimestamp(
                float(date[0]), timezone.utc)
        elif talker == 'GPGGA':  # includes""", """    if talker == 'INGGA':  # on Ride, uses posix timestamps
        for i, ln in enumerate(subnav):
            secs = re.findall(r'(\\d+(\\.\\d*)?) \\$%s' % talker, ln)[0][0]
            timest[i] = datetime.fromtimestamp(float(secs), tz=timezone.utc)
        return timest

    for i in range(N):
        if talker == 'GPGGA':  # includes""")]))
L.append(('langseth-split', 'C08 C01 C05', [(IO, """        date = subnav[i].split(talker)[0].split('seapath')[1].split('\\t')[1]
        timest[i] = datetime.strptime(date,'%Y:%j:%H:%M:%S.%f').replace(tzinfo=timezone.utc)
""", """        before = subnav[i].split(talker)[0]
        after = before.split('seapath')[1]
        stamp = datetime.strptime(after.split('\\t')[1], '%Y:%j:%H:%M:%S.%f')
        timest[i] = stamp.replace(tzinfo=timezone.utc)
""")]))
L.append(('coords-helper', 'C06 C05 C04', [(IO, """            lat[i] = int(post[1][:2]) + float(post[1][2:]) / \\
                60  # convert to decimal degrees
            if post[2] == 'S':
                lat[i] = -lat[i]         # handle coordinate sign
            lon[i] = int(post[3][:3]) + float(post[3][3:])/60
            if post[4] == 'W':
                lon[i] = -lon[i]
""", """            lat[i] = _degrees(post[1], 2, post[2] == 'S')
            lon[i] = _degrees(post[3], 3, post[4] == 'W')
"""), (IO, "def _clean_180cross(gps_nav):", """def _degrees(text, n, negative):
    \"\"\"decimal degrees of ddmm.mm or dddmm.mm\"\"\"
    value = int(text[:n]) + float(text[n:])/60.
    return -value if negative else value


def _clean_180cross(gps_nav):""")]))
L.append(('coords-continue', 'C06 C05 C04', [(IO, """        if post[1] == '' or post[3] == '':  # no coords, nav dropped out?
            lat[i] = np.nan; lon[i] = np.nan
        else:
            lat[i] = int(post[1][:2]) + float(post[1][2:]) / \\
                60  # convert to decimal degrees
            if post[2] == 'S':
                lat[i] = -lat[i]         # handle coordinate sign
            lon[i] = int(post[3][:3]) + float(post[3][3:])/60
            if post[4] == 'W':
                lon[i] = -lon[i]
""", """        if not post[1] or not post[3]:  # no coords, nav dropped out?
            lat[i] = lon[i] = np.nan
            continue
        lat[i] = (-1 if post[2] == 'S' else 1)*(float(post[1][:2]) + float(post[1][2:])/60)
        lon[i] = (-1 if post[4] == 'W' else 1)*(float(post[3][:3]) + float(post[3][3:])/60)
""")]))
L.append(('coords-where', 'C06 C05 C04', [(IO, """    lon = np.zeros(N)
    lat = np.zeros(N)  # arrays to hold coordinates
""", """    lon = np.full(N, np.nan)
    lat = np.full(N, np.nan)  # arrays to hold coordinates
"""), (IO, """        if post[1] == '' or post[3] == '':  # no coords, nav dropped out?
            lat[i] = np.nan; lon[i] = np.nan
        else:
            lat[i]""", """        if post[1] != '' and post[3] != '':
            lat[i]""")]))
L.append(('cross-values-once', 'C13 C05 C14', [(IO, """    # which side of the line has more points?
    lpos = gps_nav['lon'].values > 0
    lneg = gps_nav['lon'].values < 0

    newlon = gps_nav['lon'].values.copy()  # .values may be read-only

    if sum(lpos) > sum(lneg):
        newlon[lneg] = 180 + newlon[lneg] % 180
    else:
        newlon[lpos] = -180 + newlon[lpos] % -180
""", """    newlon = np.array(gps_nav['lon'])
    east, west = newlon > 0, newlon < 0

    if np.sum(east) > np.sum(west):
        newlon = np.where(west, 180 + newlon % 180, newlon)
    else:
        newlon = np.where(east, newlon % -180 - 180, newlon)
""")]))
L.append(('cross-even', 'C13 C05 C14', [(IO, """    if len(ilocs) % 2 != 0:  # these are not paired, so one must be an end?
        pass
    else:  # pairs of indices for jump out and back
        for i in ilocs[::2]:  # assume nice pairwise
            # ad hoc duplication, not great
            newlon[i+1] = (newlon[i] + newlon[i+2])/2

    gps_nav = gps_nav.assign(lon=newlon)

    return gps_nav
""", """    if len(ilocs) % 2 == 0:  # pairs of indices for jump out and back
        for i in ilocs[::2]:  # assume nice pairwise
            newlon[i+1] = 0.5*newlon[i] + 0.5*newlon[i+2]

    return gps_nav.assign(lon=newlon)
""")]))
