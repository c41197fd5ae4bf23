U = 'shipgrav/utils.py'
INI = 'C28 C14 C15'
PICK = 'C29 C31'
L = []
L.append(('gauss-convolve', 'C26 C14', [(U, """    # set up ring buffer
    filt_len = len(coeffs)
    ring_buffer = np.zeros(filt_len)

    xfilt = np.zeros(len(x))

    for i in range(len(x)):
        ring_buffer = np.append(ring_buffer[1:], x[i])
        filt_vec = ring_buffer*coeffs

        xfilt[i] = sum(filt_vec)

    return xfilt
""", """    return np.convolve(x, coeffs)[:len(x)]
""")]))
L.append(('gauss-lfilter', 'C26 C14', [(U, """    # set up ring buffer
    filt_len = len(coeffs)
    ring_buffer = np.zeros(filt_len)

    xfilt = np.zeros(len(x))

    for i in range(len(x)):
        ring_buffer = np.append(ring_buffer[1:], x[i])
        filt_vec = ring_buffer*coeffs

        xfilt[i] = sum(filt_vec)

    return xfilt
""", """    padded = np.concatenate((np.zeros(len(coeffs)-1), x))
    return np.array([np.dot(padded[i:i+len(coeffs)], coeffs) for i in range(len(x))])
""")]))
L.append(('gauss-enumerate', 'C26 C14', [(U, """    for i in range(len(x)):
        ring_buffer = np.append(ring_buffer[1:], x[i])
        filt_vec = ring_buffer*coeffs

        xfilt[i] = sum(filt_vec)
""", """    for i, sample in enumerate(x):
        ring_buffer = np.append(ring_buffer[1:], sample)
        xfilt[i] = np.dot(ring_buffer, coeffs)
""")]))
L.append(('gauss-inplace-shift', 'C26 C14', [(U, """        ring_buffer = np.append(ring_buffer[1:], x[i])
""", """        ring_buffer[:-1] = ring_buffer[1:]
        ring_buffer[-1] = x[i]
""")]))
L.append(('gauss-coeffs-vector', 'C26', [(U, """    gauss_prms = np.zeros(coeff_len)
    m = 0
    for i in range(coeff_len, 0, -1):
        x = (half_sample - i)*frac
        x = -.5*x**2
        gauss_prms[m] = np.exp(x)
        m += 1
""", """    i = np.arange(coeff_len, 0, -1)
    gauss_prms = np.exp(-.5*((half_sample - i)*frac)**2)
""")]))
L.append(('gauss-coeffs-comp', 'C26', [(U, """    gauss_prms = np.zeros(coeff_len)
    m = 0
    for i in range(coeff_len, 0, -1):
        x = (half_sample - i)*frac
        x = -.5*x**2
        gauss_prms[m] = np.exp(x)
        m += 1
""", """    gauss_prms = np.array([np.exp(-((half_sample - i)*frac)**2/2) for i in range(coeff_len, 0, -1)])
""")]))
L.append(('gauss-concat', 'C26', [(U, """    gauss_prms = np.hstack(
        (gauss_prms[1:][::-1], gauss_prms[0], gauss_prms[1:]))

    # normalize
    gauss_prms = gauss_prms/sum(gauss_prms)
""", """    gauss_prms = np.concatenate((gauss_prms[:0:-1], gauss_prms))

    # normalize
    gauss_prms /= gauss_prms.sum()
""")]))
L.append(('gauss-half', 'C26', [(U, """    half_sample = np.floor(.5*fl)
    coeff_len = int(half_sample + 1)
""", """    half_sample = fl//2
    coeff_len = int(half_sample) + 1
""")]))
L.append(('gauss-raise', 'C26', [(U, """    assert len(x) > fl, 'raw data is shorter than gaussian filter'
""", """    if len(x) <= fl:
        raise AssertionError('raw data is shorter than gaussian filter')
""")]))
L.append(('status-comp', 'C27 C14', [(U, """        bt = format(stat, '016b')
        out = {}
        for i, f in enumerate(flags):
            out[f] = bt[i]
        return out
""", """        return dict(zip(flags, format(stat, '016b')))
""")]))
L.append(('status-fstring', 'C27 C14', [(U, """        bt = format(stat, '016b')
        out = {}
        for i, f in enumerate(flags):
            out[f] = bt[i]
        return out
""", """        bt = f'{stat:016b}'
        return {f: b for f, b in zip(flags, bt)}
""")]))
L.append(('status-shift', 'C27 C14', [(U, """        bt = format(stat, '016b')
        out = {}
        for i, f in enumerate(flags):
            out[f] = bt[i]
        return out
""", """        bt = bin(stat)[2:].zfill(16)
        return {f: bt[i] for i, f in enumerate(flags)}
""")]))
L.append(('status-frame-zip', 'C27 C14', [(U, """        bts = np.array([format(s, '016b') for s in stat[key]])
        for i, f in enumerate(flags):
            stat.insert(i+1, f, [b[i] for b in bts])
        return stat
""", """        words = ['{:016b}'.format(s) for s in stat[key]]
        for pos, name in enumerate(flags, start=1):
            stat.insert(pos, name, [w[pos-1] for w in words])
        return stat
""")]))
L.append(('status-frame-map', 'C27 C14', [(U, """        bts = np.array([format(s, '016b') for s in stat[key]])
        for i, f in enumerate(flags):
            stat.insert(i+1, f, [b[i] for b in bts])
""", """        bts = stat[key].map(lambda s: format(s, '016b'))
        for i, f in enumerate(flags):
            stat.insert(i+1, f, bts.str[i])
""")]))
L.append(('status-isinstance', 'C27', [(U, """    if type(stat) is int:
        bt""", """    if not isinstance(stat, DataFrame):
        bt""")]))
L.append(('status-helper', 'C27 C14', [(U, """        bt = format(stat, '016b')
        out = {}""", """        bt = _word(stat)
        out = {}"""), (U, """np.array([format(s, '016b') for s in stat[key]])""", """[_word(s) for s in stat[key]]"""), (U, "def decode_dgs_status_bits(", """def _word(status):
    return format(status, '016b')


def decode_dgs_status_bits(""")]))
L.append(('ini-replace', INI, [(U, """    text = re.sub('//', '#', text)

    # clean out tabs
    text = re.sub('\\t', '  ', text)

    # fix TRUE and FALSE
    text = re.sub('TRUE', 'true', text)
    text = re.sub('FALSE', 'false', text)

    text = re.sub('$', '', text)
""", """    for old, new in (('//', '#'), ('\\t', '  '), ('TRUE', 'true'), ('FALSE', 'false')):
        text = text.replace(old, new)
""")]))
L.append(('ini-list-join', INI, [(U, "    fo = StringIO()  # collects the output\n", "    out = []  # collects the output\n"),
 (U, """        if ln.lstrip().startswith(('[', '#')) or ln.strip() == '':
            fo.write(ln)
            fo.write('\\n')
            continue
""", """        if ln.lstrip().startswith(('[', '#')) or ln.strip() == '':
            out.append(ln)
            continue
"""), (U, """        if val == 'true' or val == 'false':  # skip bools
            fo.write(ln)
            fo.write('\\n')
            continue
        if val.startswith("\\""):  # skip strings already quoted
            fo.write(ln)
            fo.write('\\n')
            continue
""", """        if val in ('true', 'false') or val.startswith('"'):  # skip bools and quoted strings
            out.append(ln)
            continue
"""), (U, """        fo.write(ln)
        fo.write('\\n')

    with open(opath, 'w') as file:
        file.write(fo.getvalue())
""", """        out.append(ln)

    with open(opath, 'w') as file:
        file.write('\\n'.join(out) + '\\n')
""")]))
L.append(('ini-helper', INI, [(U, """        val = ln.split('=', 1)[1]  # get value from key=value pair
        extra_comm = ''
        if '#' in val:
            val, extra_comm = val.split('#', 1)
        val = val.strip()

        if val == 'true' or val == 'false':  # skip bools
            fo.write(ln)
            fo.write('\\n')
            continue
        if val.startswith("\\""):  # skip strings already quoted
            fo.write(ln)
            fo.write('\\n')
            continue
        try:
            float(val)
        except:
            val = "\\"" + val + "\\""
            ln = '= '.join((ln.split('=')[0], val))
            if extra_comm != '':
                ln = '   #'.join((ln, extra_comm))
        fo.write(ln)
        fo.write('\\n')
""", """        fo.write(_quote_value(ln) + '\\n')
"""), (U, "def clean_ini_to_toml(", """def _quote_value(ln):
    \"\"\"a key = value line with its value in quotes unless it is a bool, a number, or quoted\"\"\"
    key, val = ln.split('=', 1)
    val, _, comment = val.partition('#')
    val = val.strip()
    if val in ('true', 'false') or val.startswith('"'):
        return ln
    try:
        float(val)
        return ln
    except ValueError:
        pass
    ln = key + '= "' + val + '"'
    return ln + '   #' + comment if comment else ln


def clean_ini_to_toml(""")]))
L.append(('ini-readlines', INI, [(U, """    lines = text.split('\\n')
    for ln in lines:
        if ln""", """    for ln in text.split('\\n'):
        if ln""")]))
L.append(('ini-direct-write', INI, [(U, """    fo = StringIO()  # collects the output
""", """    fo = StringIO('')
"""), (U, """        if ln.startswith('$'):
            ln = re.sub(r'\\$', '', ln)  # clean out $ for talkers
""", """        if ln[:1] == '$':
            ln = ln.replace('$', '')  # clean out $ for talkers
"""), (U, """    with open(opath, 'w') as file:
        file.write(fo.getvalue())
""", """    fo.seek(0)
    with open(opath, 'w') as file:
        file.write(fo.read())
""")]))
L.append(('ini-elif', INI, [(U, """        if val == 'true' or val == 'false':  # skip bools
            fo.write(ln)
            fo.write('\\n')
            continue
        if val.startswith("\\""):  # skip strings already quoted
            fo.write(ln)
            fo.write('\\n')
            continue
        try:
            float(val)
        except:
            val = "\\"" + val + "\\""
            ln = '= '.join((ln.split('=')[0], val))
            if extra_comm != '':
                ln = '   #'.join((ln, extra_comm))
        fo.write(ln)
        fo.write('\\n')
""", """        keep = val == 'true' or val == 'false' or val.startswith("\\"")  # bools and strings already quoted
        if not keep:
            try:
                float(val)
            except ValueError:
                key = ln.split('=')[0]
                ln = f'{key}= "{val}"'
                if extra_comm:
                    ln += '   #' + extra_comm
        fo.write(ln + '\\n')
""")]))
L.append(('ini-print', INI, [(U, """        file.write(fo.getvalue())
""", """        print(fo.getvalue(), end='', file=file)
""")]))
L.append(('picker-nearest', PICK, [(U, """            ind_x = np.argmin(abs(x - self.data['tsec']))
            self.x_seg.append(self.data.iloc[ind_x]['lon_new'])
            self.y_seg.append(self.data.iloc[ind_x]['lat_new'])
            self.i_seg.append(ind_x)
""", """            ind_x = self._nearest(x)
            row = self.data.iloc[ind_x]
            self.i_seg.append(ind_x)
            self.x_seg.append(row['lon_new'])
            self.y_seg.append(row['lat_new'])
"""), (U, """            ind_x = np.argmin(abs(x - self.data['tsec']))
            self.dot""", """            ind_x = self._nearest(x)
            self.dot"""), (U, "    def on_mouse_click(self, event):", """    def _nearest(self, x):
        \"\"\"row of the data nearest in time\"\"\"
        return np.argmin(abs(x - self.data['tsec']))

    def on_mouse_click(self, event):""")]))
L.append(('picker-show', PICK, [(U, """            self.i_seg.append(ind_x)
            self.scatters[0].update({'xdata': self.x_seg, 'ydata': self.y_seg})
""", """            self.i_seg.append(ind_x)
            self._show()
"""), (U, """            self.i_seg.pop()
            self.scatters[0].update({'xdata': self.x_seg, 'ydata': self.y_seg})

""", """            self.i_seg.pop()
            self._show()

"""), (U, "    def on_mouse_click(self, event):", """    def _show(self):
        self.scatters[0].update(dict(xdata=self.x_seg, ydata=self.y_seg))

    def on_mouse_click(self, event):""")]))
L.append(('picker-set-data', PICK, [(U, """            self.i_seg.append(ind_x)
            self.scatters[0].update({'xdata': self.x_seg, 'ydata': self.y_seg})
""", """            self.i_seg.append(ind_x)
            self.scatters[0].set_data(self.x_seg, self.y_seg)
"""), (U, """            self.i_seg.pop()
            self.scatters[0].update({'xdata': self.x_seg, 'ydata': self.y_seg})
""", """            self.i_seg.pop()
            self.scatters[0].set_data(self.x_seg, self.y_seg)
""")]))
L.append(('picker-elif', PICK, [(U, """        if event.button == 3 and self.i_seg:  # pop""", """        elif event.button == 3 and len(self.i_seg) > 0:  # pop""")]))
L.append(('picker-loop-pop', PICK, [(U, """            self.x_seg.pop()
            self.y_seg.pop()
            self.i_seg.pop()
""", """            for seg in (self.x_seg, self.y_seg, self.i_seg):
                seg.pop()
""")]))
L.append(('picker-del', PICK, [(U, """            self.x_seg.pop()
            self.y_seg.pop()
            self.i_seg.pop()
""", """            del self.x_seg[-1], self.y_seg[-1], self.i_seg[-1]
""")]))
L.append(('picker-early-return', PICK, [(U, """        if event.button == 1 and event.xdata is not None:  # None outside of the axes
            x, y = event.xdata, event.ydata
            ind_x = np.argmin(abs(x - self.data['tsec']))
            self.x_seg.append(self.data.iloc[ind_x]['lon_new'])
            self.y_seg.append(self.data.iloc[ind_x]['lat_new'])
            self.i_seg.append(ind_x)
            self.scatters[0].update({'xdata': self.x_seg, 'ydata': self.y_seg})

        if event.button == 3 and self.i_seg:  # pop the last element of the lists
            self.x_seg.pop()
            self.y_seg.pop()
            self.i_seg.pop()
            self.scatters[0].update({'xdata': self.x_seg, 'ydata': self.y_seg})

        self.ax1""", """        if event.button == 1 and event.xdata is not None:  # None outside of the axes
            ind_x = np.abs(self.data['tsec'] - event.xdata).argmin()
            self.x_seg.append(self.data['lon_new'].iloc[ind_x])
            self.y_seg.append(self.data['lat_new'].iloc[ind_x])
            self.i_seg.append(ind_x)
        elif event.button == 3 and self.i_seg:  # pop the last element of the lists
            self.x_seg.pop()
            self.y_seg.pop()
            self.i_seg.pop()
        self.scatters[0].update({'xdata': self.x_seg, 'ydata': self.y_seg})

        self.ax1""")]))
L.append(('picker-points-list', PICK, [(U, """            self.x_seg.append(self.data.iloc[ind_x]['lon_new'])
            self.y_seg.append(self.data.iloc[ind_x]['lat_new'])
""", """            lon, lat = self.data.iloc[ind_x][['lon_new', 'lat_new']]
            self.x_seg += [lon]
            self.y_seg += [lat]
""")]))
