IO = 'shipgrav/io.py'
BGM = 'C01 C02 C03 C04 C11 C14 C15 C30 C31'
DGS = 'C01 C02 C03 C04 C09 C10 C14 C15 C30 C31'
L = []
L.append(('rgs-helper', BGM, [(IO, """        dat = pd.read_csv(path, delimiter=' ', names=['date', 'time', 'grav', 'lat', 'lon'],
                          usecols=(1, 2, 3, 11, 12))
        dat['date_time'] = pd.to_datetime(dat.pop('date')+' '+dat.pop('time'),utc=True)
        dats.append(dat)

    return pd.concat(dats, ignore_index=True)


def read_bgm_raw(""", """        dats.append(_read_rgs_file(path))

    return pd.concat(dats, ignore_index=True)


def _read_rgs_file(path):
    dat = pd.read_csv(path, delimiter=' ', names=['date', 'time', 'grav', 'lat', 'lon'],
                      usecols=(1, 2, 3, 11, 12))
    dat['date_time'] = pd.to_datetime(dat.pop('date')+' '+dat.pop('time'), utc=True)
    return dat


def read_bgm_raw(""")]))
L.append(('rgs-comprehension', BGM, [(IO, """    dats = []
    for path in tqdm(fp, desc='reading RGS files', disable=not progressbar):
        dat = pd.read_csv(path, delimiter=' ', names=['date', 'time', 'grav', 'lat', 'lon'],
                          usecols=(1, 2, 3, 11, 12))
        dat['date_time'] = pd.to_datetime(dat.pop('date')+' '+dat.pop('time'),utc=True)
        dats.append(dat)

    return pd.concat(dats, ignore_index=True)
""", """    def one(path):
        dat = pd.read_csv(path, sep=' ', names=['date', 'time', 'grav', 'lat', 'lon'],
                          usecols=[1, 2, 3, 11, 12])
        stamps = pd.to_datetime(dat['date'] + ' ' + dat['time'], utc=True)
        return dat.drop(columns=['date', 'time']).assign(date_time=stamps)

    return pd.concat([one(path) for path in tqdm(fp, desc='reading RGS files', disable=not progressbar)],
                     ignore_index=True)
""")]))
L.append(('bgm-scale-get', BGM, [(IO, """    if scale is not None:
        pass  # use provided scale factor if it's there
    else:
        if ship not in sc_fac.keys():
            print('BGM scale factor not known for R/V %s' % ship)
            return -999
        else:
            scale = sc_fac[ship]
""", """    if scale is None and ship not in sc_fac:
        print('BGM scale factor not known for R/V %s' % ship)
        return -999
    scale = sc_fac[ship] if scale is None else scale
""")]))
L.append(('bgm-dispatch', BGM, [(IO, """            if ship == 'Atlantis':
                dat = _bgmserial_Atlantis(path)
            elif ship == 'Thompson':
                dat = _bgmserial_Thompson(path)
            elif ship == 'Revelle':
                dat = _bgmserial_Revelle(path)
            elif ship == 'Langseth':
                dat = _bgmserial_Langseth(path)
            else:   # shouldn't end up here, but just in case:
                print('BGM serial read not yet supported for R/V %s' % ship)
                return -999
""", """            readers = {'Atlantis': _bgmserial_Atlantis, 'Thompson': _bgmserial_Thompson,
                       'Revelle': _bgmserial_Revelle, 'Langseth': _bgmserial_Langseth}
            if ship not in readers:   # shouldn't end up here, but just in case:
                print('BGM serial read not yet supported for R/V %s' % ship)
                return -999
            dat = readers[ship](path)
""")]))
L.append(('bgm-reader-chosen-once', BGM, [(IO, """    dats = []
    for path in tqdm(fp,desc='reading BGM files',disable=not progressbar):
        if ship_function != None:
            dat = ship_function(path)
        else:
            if ship == 'Atlantis':
                dat = _bgmserial_Atlantis(path)
            elif ship == 'Thompson':
                dat = _bgmserial_Thompson(path)
            elif ship == 'Revelle':
                dat = _bgmserial_Revelle(path)
            elif ship == 'Langseth':
                dat = _bgmserial_Langseth(path)
            else:   # shouldn't end up here, but just in case:
                print('BGM serial read not yet supported for R/V %s' % ship)
                return -999
        dat['rgrav'] = scale*dat['counts']
        dats.append(dat)
    return pd.concat""", """    reader = ship_function
    if reader is None:
        if ship == 'Atlantis':
            reader = _bgmserial_Atlantis
        elif ship == 'Thompson':
            reader = _bgmserial_Thompson
        elif ship == 'Revelle':
            reader = _bgmserial_Revelle
        elif ship == 'Langseth':
            reader = _bgmserial_Langseth
        else:
            print('BGM serial read not yet supported for R/V %s' % ship)
            return -999

    dats = []
    for path in tqdm(fp, desc='reading BGM files', disable=not progressbar):
        dat = reader(path)
        dat['rgrav'] = dat['counts']*scale
        dats.append(dat)
    return pd.concat""")]))
L.append(('bgm-count-shared', BGM, [(IO, """    def count(x): return (
        int(x.split(':')[-1]))  # function to parse counts column
    dat =""", """    dat ="""), (IO, """usecols=(1, 2, 4),
                      converters={'counts': count})""", """usecols=(1, 2, 4),
                      converters={'counts': _count})"""), (IO, """    def count(x): return (int(x.split(':')[-1]))
    dat = pd.read_csv(path, delimiter=' ', names=['date_time', 'counts'], usecols=(0, 1),
                      converters={'counts': count})""", """    dat = pd.read_csv(path, delimiter=' ', names=['date_time', 'counts'], usecols=(0, 1),
                      converters={'counts': _count})"""), (IO, "def _bgmserial_Atlantis(path):", """def _count(field):
    \"\"\"number after the last colon\"\"\"
    return int(field.rsplit(':', 1)[-1])


def _bgmserial_Atlantis(path):""")]))
L.append(('bgm-lambda', BGM, [(IO, """    def count(x): return (int(x.split(' ')[0].split(':')[-1]))
    dat = pd.read_csv(path, delimiter=',', names=['date', 'time', 'counts'],
                    converters={'counts': count})
    dat['date_time'] = pd.to_datetime(dat.pop('date')+' '+dat.pop('time'),utc=True)
    return dat
""", """    dat = pd.read_csv(path, names=['date', 'time', 'counts'],
                      converters={'counts': lambda x: int(x.split(' ')[0].split(':')[-1])})
    date, time = dat.pop('date'), dat.pop('time')
    dat['date_time'] = pd.to_datetime(date.str.cat(time, sep=' '), utc=True)
    return dat
""")]))
L.append(('bgm-rgrav-assign', BGM, [(IO, """        dat['rgrav'] = scale*dat['counts']
        dats.append(dat)
    return""", """        dats.append(dat.assign(rgrav=dat['counts']*scale))
    return""")]))
L.append(('bgm-rgrav-mul', BGM, [(IO, """        dat['rgrav'] = scale*dat['counts']
        dats""", """        dat['rgrav'] = dat.counts.mul(scale)
        dats""")]))
L.append(('despike-mask', 'C14 C31', [(IO, """    if len(meh) > 2:
        # for""", """    if meh.size > 2:
        # for""")]))
L.append(('laptop-membership', DGS, [(IO, """            if ship in ['Atlantis', 'Revelle', 'NBP', 'Ride', 'DGStest']:
                dat = _dgs_laptop_general(path)
            elif ship == 'Thompson':
                dat = _dgs_laptop_Thompson(path)
            elif ship == 'Sikuliaq':
                dat = _dgs_laptop_Sikuliaq(path)
            elif ship == 'Langseth':
                dat = _dgs_laptop_Langseth(path)
            else:
""", """            special = {'Thompson': _dgs_laptop_Thompson, 'Sikuliaq': _dgs_laptop_Sikuliaq,
                       'Langseth': _dgs_laptop_Langseth}
            if ship in special:
                dat = special[ship](path)
            elif ship in {'Atlantis', 'Revelle', 'NBP', 'Ride', 'DGStest'}:
                dat = _dgs_laptop_general(path)
            else:
""")]))
L.append(('laptop-columns-constant', DGS, [(IO, """    dat = pd.read_csv(path, delimiter=',', names=['rgrav', 'long_a', 'crss_a', 'status', 've', 'vcc',
                                                  'al', 'ax', 'lat', 'lon', 'year', 'month', 'day',
                                                  'hour', 'minute', 'second'],
                      usecols=(1, 2, 3, 6, 10, 11, 12, 13, 14, 15, 19, 20, 21, 22, 23, 24))
    dat['date_time'] = pd.to_datetime(
        dat[['year', 'month', 'day', 'hour', 'minute', 'second']], utc=True)
    return dat


def _dgs_laptop_Sik""", """    dat = pd.read_csv(path, names=_LAPTOP_NAMES, usecols=_LAPTOP_COLS)
    dat['date_time'] = pd.to_datetime(dat[_LAPTOP_NAMES[-6:]], utc=True)
    return dat


def _dgs_laptop_Sik"""), (IO, "def _dgs_laptop_general(path):", """_LAPTOP_NAMES = ['rgrav', 'long_a', 'crss_a', 'status', 've', 'vcc', 'al', 'ax', 'lat', 'lon',
                 'year', 'month', 'day', 'hour', 'minute', 'second']
_LAPTOP_COLS = [1, 2, 3, 6] + list(range(10, 16)) + list(range(19, 25))


def _dgs_laptop_general(path):""")]))
L.append(('laptop-dict-stamps', DGS, [(IO, """    dat['date_time'] = pd.to_datetime(
        dat[['year', 'month', 'day', 'hour', 'minute', 'second']], utc=True)
    return dat


def _dgs_laptop_Sik""", """    parts = {k: dat[k] for k in ('year', 'month', 'day', 'hour', 'minute', 'second')}
    dat['date_time'] = pd.to_datetime(pd.DataFrame(parts), utc=True)
    return dat


def _dgs_laptop_Sik""")]))
L.append(('laptop-shared-helper', DGS, [(IO, """    dat = pd.read_csv(path,skiprows=19,names=['rgrav','long_a','crss_a','status','ve','vcc',
                                              'al','ax','lat','lon','year','month','day',
                                              'hour','minute','second'],
                      usecols=(1,2,3,6,10,11,12,13,14,15,19,20,21,22,23,24))
    dat['date_time'] = pd.to_datetime(dat[['year','month','day','hour','minute','second']],utc=True)
    return dat
""", """    return _dgs_laptop_general(path, skiprows=19)
"""), (IO, "def _dgs_laptop_general(path):", "def _dgs_laptop_general(path, **how):"), (IO, """                      usecols=(1, 2, 3, 6, 10, 11, 12, 13, 14, 15, 19, 20, 21, 22, 23, 24))
    dat['date_time'] = pd.to_datetime(
        dat[['year', 'month', 'day', 'hour', 'minute', 'second']], utc=True)
    return dat


def _dgs_laptop_Sik""", """                      usecols=(1, 2, 3, 6, 10, 11, 12, 13, 14, 15, 19, 20, 21, 22, 23, 24), **how)
    dat['date_time'] = pd.to_datetime(
        dat[['year', 'month', 'day', 'hour', 'minute', 'second']], utc=True)
    return dat


def _dgs_laptop_Sik""")]))
L.append(('laptop-thompson-str', DGS, [(IO, """                      usecols=(0, 1, 3, 12, 13, 14, 15, 16, 17))
    dat['date_time'] = pd.to_datetime(dat.pop('date')+' '+dat.pop('time'),utc=True)
    return dat
""", """                      usecols=(0, 1, 3, 12, 13, 14, 15, 16, 17))
    dat.insert(2, 'date_time', pd.to_datetime(dat['date'].str.cat(dat['time'], sep=' '), utc=True))
    dat = dat[['rgrav', 've', 'vcc', 'al', 'ax', 'lat', 'lon', 'date_time']]
    return dat
""")]))
L.append(('langseth-generator', DGS, [(IO, """            s = raw.lstrip()  # remove leading spaces before 'dgsdata'
            # Remove optional prefix: "dgsdata yyyy:ddd:hh:mm:ss.ssss "
            if s.startswith('dgsdata'):
                parts = s.split(None, 2)
                if len(parts) < 3:
                    print(f"SKIP malformed prefix in {path}: line {ln_no}")
                    skipped += 1
                    continue
                tail = parts[2].rstrip('\\n')
            else:
                tail = s.rstrip('\\n')
            # Skip lines that are not 26 fields and report where they are
            fields = tail.split(',')
            if len(fields) != 26:
                print(f"SKIP non-26-field line in {path}: line {ln_no} (NF={len(fields)})")
                skipped += 1
                continue

            cleaned.append(fields)
""", """            tail = _without_prefix(raw)
            if tail is None:
                print(f"SKIP malformed prefix in {path}: line {ln_no}")
                skipped += 1
                continue
            fields = tail.split(',')
            if len(fields) == 26:
                cleaned.append(fields)
            else:
                print(f"SKIP non-26-field line in {path}: line {ln_no} (NF={len(fields)})")
                skipped += 1
"""), (IO, "def _dgs_laptop_Langseth(path):", """def _without_prefix(raw):
    \"\"\"the line without "dgsdata yyyy:ddd:hh:mm:ss.ssss " in front, None if there is nothing after it\"\"\"
    s = raw.lstrip()
    if not s.startswith('dgsdata'):
        return s.rstrip('\\n')
    parts = s.split(None, 2)
    return parts[2].rstrip('\\n') if len(parts) >= 3 else None


def _dgs_laptop_Langseth(path):""")]))
L.append(('langseth-pick-fields', DGS, [(IO, """            cleaned.append(fields)

    if skipped""", """            cleaned.append([fields[k] for k in (1, 2, 3, 6, 10, 11, 12, 13, 14, 15, 19, 20, 21, 22, 23, 24)])

    if skipped"""), (IO, "    dat = pd.DataFrame(np.array(cleaned).T[[1, 2, 3, 6, 10, 11, 12, 13, 14, 15, 19, 20, 21, 22, 23, 24]].T,\n            columns", "    dat = pd.DataFrame(cleaned, columns")]))
L.append(('langseth-slice-array', DGS, [(IO, "np.array(cleaned).T[[1, 2, 3, 6, 10, 11, 12, 13, 14, 15, 19, 20, 21, 22, 23, 24]].T", "np.array(cleaned)[:, [1, 2, 3, 6, 10, 11, 12, 13, 14, 15, 19, 20, 21, 22, 23, 24]]")]))
L.append(('langseth-apply-numeric', DGS, [(IO, """    for col in dat.columns:
        dat[col] = pd.to_numeric(dat[col], errors='coerce')

    dat['date_time'] = pd.to_datetime(
""", """    dat = dat.apply(pd.to_numeric, errors='coerce')

    dat['date_time'] = pd.to_datetime(
""")]))
L.append(('raw-scale-loop', DGS, [(IO, """            dat['ve'] = dat['ve'].mul(0.00001)
            dat['ax'] = dat['ax'].mul(0.00001)
            dat['al'] = dat['al'].mul(0.00001)
            dat['vcc'] = dat['vcc'].mul(0.00001)  # -0.000029)
""", """            for col in ('ve', 'vcc', 'al', 'ax'):
                dat[col] *= 1e-5
""")]))
L.append(('raw-scale-frame', DGS, [(IO, """            dat['ve'] = dat['ve'].mul(0.00001)
            dat['ax'] = dat['ax'].mul(0.00001)
            dat['al'] = dat['al'].mul(0.00001)
            dat['vcc'] = dat['vcc'].mul(0.00001)  # -0.000029)
""", """            cc = ['ve', 'vcc', 'al', 'ax']
            dat[cc] = dat[cc]*1e-5
""")]))
L.append(('raw-scale-helper', DGS, [(IO, """            dat['ve'] = dat['ve'].mul(0.00001)
            dat['ax'] = dat['ax'].mul(0.00001)
            dat['al'] = dat['al'].mul(0.00001)
            dat['vcc'] = dat['vcc'].mul(0.00001)  # -0.000029)
        dats.append(dat)
""", """            dat = _scale_cc(dat)
        dats.append(dat)
"""), (IO, "def _dgs_raw_general(path):", """def _scale_cc(dat, factor=1e-5):
    \"\"\"rescale the cross-coupling factors\"\"\"
    return dat.assign(**{k: factor*dat[k] for k in ('ve', 'ax', 'al', 'vcc')})


def _dgs_raw_general(path):""")]))
L.append(('raw-dispatch', DGS, [(IO, """        if ship == 'Thompson':  # always with the special file formats
            dat = _dgs_raw_Thompson(path)
        elif ship == 'Sikuliaq':
            dat = _dgs_raw_Sikuliaq(path)
        else:  # there might be exceptions besides Thompson but I don't know about them yet
            dat = _dgs_raw_general(path)
""", """        dat = {'Thompson': _dgs_raw_Thompson, 'Sikuliaq': _dgs_raw_Sikuliaq}.get(ship, _dgs_raw_general)(path)
""")]))
L.append(('raw-general-flag', DGS, [(IO, """    conv_times = True  # assume column 18 is actually timestamps
    if str(dat.iloc[0].timestamp).startswith('1'):  # 1 Hz, 1 second
        conv_times = False  # clock not synced, so don't try to convert to stamp

    if conv_times:  # probably UTC stamps
        new_dates = pd.to_datetime(
            dat['timestamp'], utc=True, format='%Y%m%d%H%M%S')
        dat['date_time'] = new_dates

    # special case of not synced for timestamp, but stamp might be in string elsewhere
    if not conv_times and not dat.iloc[0]['string'].startswith('$'):
        # split""", """    synced = not str(dat.iloc[0].timestamp).startswith('1')  # 1 Hz, 1 second

    if synced:  # probably UTC stamps
        dat['date_time'] = pd.to_datetime(dat['timestamp'], format='%Y%m%d%H%M%S', utc=True)
    # special case of not synced for timestamp, but stamp might be in string elsewhere
    elif not dat.iloc[0]['string'].startswith('$'):
        # split""")]))
L.append(('raw-general-str', DGS, [(IO, """            times = [e.split(' ')[0] for e in dat['string'].values]
            dat""", """            times = dat['string'].str.split(' ').str[0]
            dat""")]))
L.append(('raw-general-first', DGS, [(IO, """    if str(dat.iloc[0].timestamp).startswith('1'):""", """    first = dat.iloc[0]
    if str(first['timestamp'])[0] == '1':""")]))
L.append(('raw-thompson-columns', DGS, [(IO, """    dat['stamps'] = [':'.join([e[1]['date'], e[1]['time']])
                     for e in dat.iterrows()]
    dat['date_time'] = pd.to_datetime(
        dat['stamps'], utc=True, format='%m/%d/%Y:%H:%M:%S.%f')
    dat.drop('stamps', axis=1, inplace=True)
""", """    dat['date_time'] = pd.to_datetime(dat['date'] + ':' + dat['time'], utc=True,
                                      format='%m/%d/%Y:%H:%M:%S.%f')
""")]))
L.append(('raw-thompson-zip', DGS, [(IO, """    dat['stamps'] = [':'.join([e[1]['date'], e[1]['time']])
                     for e in dat.iterrows()]
    dat['date_time'] = pd.to_datetime(
        dat['stamps'], utc=True, format='%m/%d/%Y:%H:%M:%S.%f')
    dat.drop('stamps', axis=1, inplace=True)
""", """    stamps = [f'{d}:{t}' for d, t in zip(dat['date'], dat['time'])]
    dat['date_time'] = pd.to_datetime(stamps, utc=True, format='%m/%d/%Y:%H:%M:%S.%f')
""")]))
L.append(('raw-sikuliaq-apply', DGS, [(IO, """    # Convert to numeric
    for col in parts.columns:
        parts[col] = pd.to_numeric(parts[col], errors='coerce')

    dat = pd.concat([dat[['timestamp']], parts], axis=1)
    dat['date_time'] = pd.to_datetime(dat.pop('timestamp'), utc=True)
    return dat
""", """    parts = parts.apply(lambda c: pd.to_numeric(c, errors='coerce'))
    parts['date_time'] = pd.to_datetime(dat['timestamp'], utc=True)
    return parts
""")]))
L.append(('other-removeprefix', 'C12 C14 C15 C31', [(IO, """    if tag.startswith('$'):
        tag = tag[1:]
    dtag = '$' + tag
""", """    tag = tag[1:] if tag[:1] == '$' else tag
    dtag = f'${tag}'
""")]))
L.append(('other-walrus', 'C12 C14 C15', [(IO, """        raw = s.readline()
        while raw:  # an empty read means we got to the end of the file
            # bytes->string, strip \\r\\n from end
            ln = raw.decode('ascii').rstrip()
            if dtag in ln:
                lines.append(ln)
            raw = s.readline()  # next!
""", """        while True:
            raw = s.readline()
            if not raw:  # an empty read means we got to the end of the file
                break
            ln = raw.decode('ascii').rstrip()
            if dtag in ln:
                lines.append(ln)
""")]))
L.append(('other-iter', 'C12 C14 C15', [(IO, """        raw = s.readline()
        while raw:  # an empty read means we got to the end of the file
            # bytes->string, strip \\r\\n from end
            ln = raw.decode('ascii').rstrip()
            if dtag in ln:
                lines.append(ln)
            raw = s.readline()  # next!
""", """        for raw in iter(s.readline, b''):
            ln = raw.decode('ascii').rstrip()
            if dtag in ln:
                lines.append(ln)
""")]))
L.append(('other-plain-file', 'C12 C14 C15', [(IO, """    with open(data_file, 'rb') as file, \\
            mmap.mmap(file.fileno(), 0, access=mmap.ACCESS_READ) as s:
        result = s.find(bytes(dtag, 'ascii'))
        assert result != -1, '%s not in data file %s' % (tag, data_file)

        # checks done, read in all the lines for this feed
        lines = []
        s.seek(0)
        raw = s.readline()
        while raw:  # an empty read means we got to the end of the file
            # bytes->string, strip \\r\\n from end
            ln = raw.decode('ascii').rstrip()
            if dtag in ln:
                lines.append(ln)
            raw = s.readline()  # next!
""", """    with open(data_file, 'rb') as file:
        lines = [raw.decode('ascii').rstrip() for raw in file]
    lines = [ln for ln in lines if dtag in ln]
    assert lines, '%s not in data file %s' % (tag, data_file)
""")]))
L.append(('other-fields-loop', 'C12 C14', [(IO, """    tagsplit = [e.split(dtag) for e in lines]
    # tagjoin = [','.join(tagsplit[i][0].strip(),tagsplit[i][1].strip(',')) for i in range(len(tagsplit))]
    named_fields = [tagsplit[i][1].strip(',').split(
        ',') for i in range(len(tagsplit))]
""", """    before, named_fields = [], []
    for ln in lines:
        parts = ln.split(dtag)
        before.append(parts[0])
        named_fields.append(parts[1].strip(',').split(','))
"""), (IO, """    df['mystery'] = [tagsplit[i][0]
                     for i in range(len(tagsplit))]  # any pre-tag stuff
""", """    df['mystery'] = before  # any pre-tag stuff
""")]))
L.append(('other-colinfo-comp', 'C12 C14', [(IO, """    col_info = {}
    for c in colnames:
        try:
            col_info[c] = ym['fields'][c.split(':')[0]]
        except KeyError:
            pass
""", """    fields = ym['fields']
    col_info = {c: fields[c.split(':')[0]] for c in colnames if c.split(':')[0] in fields}
""")]))
L.append(('other-yaml-top', 'C12 C14 C15', [(IO, """    ym = ym[list(ym.keys())[0]]  # skip""", """    ym = next(iter(ym.values()))  # skip""")]))
L.append(('other-replace', 'C12 C14', [(IO, """    colnames = re.sub('{|}', '', ym['format'][tag]).split(',')[1:]
""", """    colnames = ym['format'][tag].replace('{', '').replace('}', '').split(',')[1:]
""")]))
L.append(('other-partition', 'C12 C14', [(IO, """    if tag.startswith('$'):
        tag = tag[1:]
    dtag""", """    if tag[0] == '$':
        tag = tag.replace('$', '', 1)
    dtag""")]))
