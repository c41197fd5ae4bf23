"""Reference definitions for shipgrav.utils (read by the analyser, never run)."""
import re
from io import StringIO

import numpy as np
from pandas import DataFrame

FLAGS = ['clamp status', 'GPSsync', 'reserved', 'feedback', 'R1', 'R2', 'ADlock', 'ack host',
         'NavMod1', 'NavMod2', 'dgs1_trouble', 'dgs2_trouble', 'GPStime', 'ADsat', 'nemo1', 'nemo2']


def kernel(fl):
    """ weights as shipped: unit gaussian of 6/fl per sample, measured from one sample off the centre """
    h = np.floor(fl/2)
    j = np.abs(np.arange(2*int(h) + 1) - h)
    w = np.exp(-((j - 1)*6/fl)**2/2)
    return w/np.sum(w)


def gaussian_filter(x, fl):
    assert len(x) > fl
    w = kernel(fl)
    m = len(w)
    padded = np.concatenate((np.zeros(m - 1), x))
    out = np.zeros(len(x))
    for i in range(len(x)):
        out[i] = np.dot(padded[i:i + m], w)
    return out


def decode_dgs_status_bits(stat, key='status'):
    assert type(stat) is int or type(stat) is DataFrame
    if type(stat) is int:
        word = format(stat, '016b')
        return {name: word[i] for i, name in enumerate(FLAGS)}
    words = [format(s, '016b') for s in stat[key]]
    for i in range(16):
        stat.insert(i + 1, FLAGS[i], [w[i] for w in words])
    return stat


def ini_to_toml(ini_file):
    with open(ini_file, 'r') as file:
        text = file.read()
    for old, new in (('//', '#'), ('\t', '  '), ('TRUE', 'true'), ('FALSE', 'false'), ('$', '')):
        text = re.sub(old, new, text)
    out = StringIO()
    for line in text.split('\n'):
        if line.startswith('$'):
            line = re.sub(r'\$', '', line)
        if line.lstrip().startswith(('[', '#')) or line.strip() == '':
            out.write(line)
            out.write('\n')
            continue
        val = line.split('=', 1)[1]
        comment = ''
        if '#' in val:
            val, comment = val.split('#', 1)
        val = val.strip()
        if not (val == 'true' or val == 'false' or val.startswith('"')):
            try:
                float(val)
            except:
                line = '= '.join((line.split('=')[0], '"' + val + '"'))
                if comment != '':
                    line = '   #'.join((line, comment))
        out.write(line)
        out.write('\n')
    path = ini_file.rstrip('ini') + 'toml'
    with open(path, 'w') as file:
        file.write(out.getvalue())
    return path


def nearest(data, x):
    return np.argmin(abs(x - data['tsec']))


def under_cursor(data, xs, x):
    """the row for a cursor at x: nearest in time to the first plotted point not before the cursor"""
    return np.argmin(abs(xs[min(np.searchsorted(xs, x), len(xs) - 1)] - data['tsec']))
