"""Reference decoders for the navigation files (read by the analyser, never run).

Each takes the lines of a file and the talker, and gives longitude, latitude and UTC instants of the lines with the talker."""
import re
from datetime import datetime, timezone

import numpy as np
import pandas as pd


def gga(line, talker):
    """fields of the sentence after the talker"""
    return line.split(talker)[-1].split(',')[1:]


def coordinates(lines, talker):
    lon, lat = [], []
    for line in lines:
        if talker in line:
            f = gga(line, talker)
            if f[1] == '' or f[3] == '':
                lat.append(np.nan)
                lon.append(np.nan)
            else:
                y = float(f[1][0:2]) + float(f[1][2:])/60
                x = float(f[3][0:3]) + float(f[3][3:])/60
                lat.append(-y if f[2] == 'S' else y)
                lon.append(-x if f[4] == 'W' else x)
    return np.array(lon), np.array(lat)


def clock(line, talker):
    """hour, minute, second, microsecond of the clock field"""
    f = gga(line, talker)[0]
    us = 0
    if '.' in f:
        us = int(f[7:13].ljust(6, '0'))
    return int(f[0:2]), int(f[2:4]), int(f[4:6]), us


def finish(lines, talker, date):
    lon, lat = coordinates(lines, talker)
    return lon, lat, [date(line) for line in lines if talker in line]


def Atlantis(lines, talker):
    def date(line):
        # NAV yyyy/mm/dd hh:mm:ss.sss GPS $GPGGA,...
        p = line.find('NAV ') + 4
        h, m, s, us = clock(line, talker)
        return datetime(int(line[p:p+4]), int(line[p+5:p+7]), int(line[p+8:p+10]), h, m, s, us, tzinfo=timezone.utc)
    return finish(lines, talker, date)


def NBP(lines, talker):
    def date(line):
        # yy+ddd:hh:mm:ss.sss $GPGGA,...
        p = line.find('+')
        h, m, s, us = clock(line, talker)
        d = datetime.strptime('20' + line[p-2:p] + ' ' + line[p+1:line.find(':')], '%Y %j')
        return datetime(d.year, d.month, d.day, h, m, s, us, tzinfo=timezone.utc)
    return finish(lines, talker, date)


def Thompson(lines, talker):
    def date(line):
        # mm/dd/yyyy,hh:mm:ss.sss,$INGGA,...
        h, m, s, us = clock(line, talker)
        return datetime(int(line[6:10]), int(line[0:2]), int(line[3:5]), h, m, s, us, tzinfo=timezone.utc)
    return finish(lines, talker, date)


def ThompsonWhole(lines, talker):
    """the seconds without their fraction (a recorded finding)"""
    def date(line):
        h, m, s, us = clock(line, talker)
        return datetime(int(line[6:10]), int(line[0:2]), int(line[3:5]), h, m, s, tzinfo=timezone.utc)
    return finish(lines, talker, date)


def Ride(lines, talker):
    def date(line):
        # posix.ttt $INGGA,...
        return datetime.fromtimestamp(float(line[:line.find(' ')]), timezone.utc)
    return finish(lines, talker, date)


def RideGP(lines, talker):
    def date(line):
        # yyyy-mm-ddThh:mm:ss.ffffffZ $GPGGA,...
        return datetime(int(line[0:4]), int(line[5:7]), int(line[8:10]), int(line[11:13]), int(line[14:16]), int(line[17:19]),
                        int(line[20:line.find('Z')].ljust(6, '0')), tzinfo=timezone.utc)
    return finish(lines, talker, date)


def Langseth(lines, talker):
    def date(line):
        # seapath<tab>yyyy:ddd:hh:mm:ss.ffff<tab>$INGGA,...
        t = line.split('\t')[1]
        return datetime.strptime(t, '%Y:%j:%H:%M:%S.%f').replace(tzinfo=timezone.utc)
    return finish(lines, talker, date)


def Revelle(lines, talker):
    # yyyy-mm-ddThh:mm:ss.ffffffZ $GPZDA,... somewhere before the fix
    dated = [i for i in range(len(lines)) if lines[i][4:5] == '-' and lines[i][7:8] == '-']

    def date(i):
        day = lines[[j for j in dated if j < i][-1]]
        h, m, s, us = clock(lines[i], talker)
        return datetime(int(day[0:4]), int(day[5:7]), int(day[8:10]), h, m, s, us, tzinfo=timezone.utc)
    lon, lat = coordinates(lines, talker)
    return lon, lat, [date(i) for i in range(len(lines)) if talker in lines[i]]


# --------------------------------------------------------------------------
# BGM
# --------------------------------------------------------------------------
def posix(year, month, day, h, m, s):
    return datetime(int(year), int(month), int(day), tzinfo=timezone.utc).timestamp() + 3600*float(h) + 60*float(m) + float(s)


def clock_text(t):
    """hh:mm:ss.fff"""
    return t[0:2], t[3:5], t[6:]


def records(path, skip=0):
    with open(path) as f:
        return [line.rstrip('\n') for line in f.readlines()[skip:]]


def bgm(fields, scale, default):
    """fields: (time, count text) of each record"""
    n = [int(c[c.find(':')+1:]) for t, c in fields]
    k = default if scale is None else scale
    return pd.DataFrame({'counts': n, 'rgrav': [k*x for x in n], 'date_time': [t for t, c in fields]})


def bgm_Atlantis(path, scale=None):
    f = [line.split(' ') for line in records(path)]
    return bgm([(posix(x[1][0:4], x[1][5:7], x[1][8:10], *clock_text(x[2])), x[4]) for x in f], scale, 4.994070552)


def bgm_Thompson(path, scale=None):
    f = [line.split(',') for line in records(path)]
    return bgm([(posix(x[0][6:10], x[0][0:2], x[0][3:5], *clock_text(x[1])), x[2].split(' ')[0]) for x in f], scale, 5.003353363)


def bgm_Revelle(path, scale=None):
    f = [line.split(' ') for line in records(path)]
    return bgm([(posix(x[0][0:4], x[0][5:7], x[0][8:10], *clock_text(x[0][11:-1])), x[1]) for x in f], scale, 4.99980755)


def ordinal(t):
    """yyyy:ddd:hh:mm:ss.ffff"""
    d = datetime.strptime(t[0:8], '%Y:%j')
    return posix(d.year, d.month, d.day, *clock_text(t[9:]))


def bgm_Langseth(path, scale=None):
    f = [line.split() for line in records(path)]
    return bgm([(ordinal(x[1]), x[2]) for x in f], scale, 5.0)


def rgs(path):
    f = [line.split(' ') for line in records(path)]
    return pd.DataFrame({'date_time': [posix(x[1][0:4], x[1][5:7], x[1][8:10], *clock_text(x[2])) for x in f],
                         'grav': [float(x[3]) for x in f], 'lat': [float(x[11]) for x in f], 'lon': [float(x[12]) for x in f]})


# --------------------------------------------------------------------------
# DGS laptop: gravity, long, cross, beam, temp, status, checksum, pressure, electronics temp, ve, vcc, al, ax, lat, lon, speed, course, vmond,
# year, month, day, hours, minutes, seconds, number; preceded by the filtered gravity
# --------------------------------------------------------------------------
def number(x):
    """an empty or illegible field is a missing value"""
    return np.nan if '*' in x or x.strip() == '' else float(x)


def laptop(f):
    """f: comma-separated fields of each record, from the filtered gravity on"""
    d = {}
    d['rgrav'] = [number(x[1]) for x in f]
    d['long_a'] = [number(x[2]) for x in f]
    d['crss_a'] = [number(x[3]) for x in f]
    d['status'] = [number(x[6]) for x in f]
    d['ve'] = [number(x[10]) for x in f]
    d['vcc'] = [number(x[11]) for x in f]
    d['al'] = [number(x[12]) for x in f]
    d['ax'] = [number(x[13]) for x in f]
    d['lat'] = [number(x[14]) for x in f]
    d['lon'] = [number(x[15]) for x in f]
    d['year'] = [number(x[19]) for x in f]
    d['month'] = [number(x[20]) for x in f]
    d['day'] = [number(x[21]) for x in f]
    d['hour'] = [number(x[22]) for x in f]
    d['minute'] = [number(x[23]) for x in f]
    d['second'] = [number(x[24]) for x in f]
    d['date_time'] = [posix(*x[19:25]) for x in f]
    return pd.DataFrame(d)


def laptop_general(path):
    return laptop([line.split(',') for line in records(path)])


def laptop_Sikuliaq(path):
    return laptop([line.split(',') for line in records(path, 19)])


def laptop_Thompson(path):
    # date, time of day, then as the others
    f = [line.split(',') for line in records(path)]
    d = {}
    d['rgrav'] = [float(x[3]) for x in f]
    d['ve'] = [float(x[12]) for x in f]
    d['vcc'] = [float(x[13]) for x in f]
    d['al'] = [float(x[14]) for x in f]
    d['ax'] = [float(x[15]) for x in f]
    d['lat'] = [float(x[16]) for x in f]
    d['lon'] = [float(x[17]) for x in f]
    d['date_time'] = [posix(x[0][6:10], x[0][0:2], x[0][3:5], *clock_text(x[1])) for x in f]
    return pd.DataFrame(d)


def laptop_Langseth(path):
    f = []
    for line in records(path):
        s = line.strip()
        if s[0:7] == 'dgsdata':
            w = s.split(None, 2)
            s = w[2] if len(w) == 3 else ''
        x = s.split(',')
        if len(x) == 26:
            f.append(x)
    return laptop(f)


# --------------------------------------------------------------------------
# DGS serial: $AT1M string, gravity, long, cross, beam, temp, pressure, electronics temp, vcc, ve, al, ax, status, checksum, latitude,
# longitude, speed, course, time stamp
# --------------------------------------------------------------------------
SERIAL = ['string', 'Gravity', 'Long', 'Cross', 'Beam', 'Temp', 'Pressure', 'ElecTemp', 'vcc', 've', 'al', 'ax', 'status', 'checksum', 'latitude',
          'longitude', 'speed', 'course', 'timestamp']


def value(x, name):
    return x if name == 'string' else number(x)


def serial(f, first, k, names=SERIAL):
    d = {}
    for i, name in enumerate(names):
        if name in ('vcc', 've', 'al', 'ax'):
            d[name] = [k*number(x[first+i]) for x in f]
        elif name == 'string':
            d[name] = [x[first+i] for x in f]
        else:
            d[name] = [number(x[first+i]) for x in f]
    return d


def raw_stamped(path, scale_ccp=True):
    """synchronised clock: the time is in the last field"""
    f = [line.split(',') for line in records(path)]
    d = serial(f, 0, 0.00001 if scale_ccp else 1)
    d['date_time'] = [posix(x[18][0:4], x[18][4:6], x[18][6:8], x[18][8:10], x[18][10:12], x[18][12:14]) for x in f]
    return pd.DataFrame(d)


def raw_prefixed(path, scale_ccp=True):
    """clock not synchronised: the logging time precedes the string"""
    f = [line.split(',') for line in records(path)]
    d = serial(f, 0, 0.00001 if scale_ccp else 1)
    d['date_time'] = [posix(x[0][0:4], x[0][5:7], x[0][8:10], *clock_text(x[0][11:x[0].find('Z')])) for x in f]
    return pd.DataFrame(d)


def raw_untimed(path, scale_ccp=True):
    f = [line.split(',') for line in records(path)]
    return pd.DataFrame(serial(f, 0, 0.00001 if scale_ccp else 1))


def raw_Thompson(path, scale_ccp=True):
    f = [line.split(',') for line in records(path)]
    d = serial(f, 2, 0.00001 if scale_ccp else 1, SERIAL[:-1])
    d['date'] = [x[0] for x in f]
    d['time'] = [x[1] for x in f]
    d['date_time'] = [posix(x[0][6:10], x[0][0:2], x[0][3:5], *clock_text(x[1])) for x in f]
    return pd.DataFrame(d)


def raw_Sikuliaq(path, scale_ccp=True):
    g = [line.split('\t') for line in records(path, 19)]
    f = [x[2].split(',') for x in g]
    k = 0.00001 if scale_ccp else 1
    d = {'rgrav': [float(x[1]) for x in f], 'long_a': [float(x[2]) for x in f], 'crss_a': [float(x[3]) for x in f],
         'vcc': [k*float(x[8]) for x in f], 've': [k*float(x[9]) for x in f], 'al': [k*float(x[10]) for x in f], 'ax': [k*float(x[11]) for x in f],
         'lat': [float(x[14]) for x in f], 'lon': [float(x[15]) for x in f]}
    d['date_time'] = [posix(x[1][0:4], x[1][5:7], x[1][8:10], *clock_text(x[1][11:-1])) for x in g]
    return pd.DataFrame(d)


# --------------------------------------------------------------------------
# other feeds
# --------------------------------------------------------------------------
def scalar(x):
    if x == '':
        return np.nan
    try:
        return float(x)
    except ValueError:
        return x


def feed(data, tag, columns, info):
    """fields after the tag under their names, the text before it"""
    rows = [line for line in records(data) if tag in line]
    after = [x.split(tag)[1].strip().split(',')[1:] for x in rows]
    d = {}
    for i in range(len(columns)):
        d[columns[i]] = [scalar(x[i]) for x in after]
    d['mystery'] = [scalar(x.split(tag)[0]) for x in rows]
    return pd.DataFrame(d), info


# --------------------------------------------------------------------------
# several files, user-supplied parsers
# --------------------------------------------------------------------------
def separately(read, paths, ship, kw):
    """each file by itself, one after the other"""
    return pd.concat([read(p, ship, **kw) for p in paths], ignore_index=True)


def user_bgm(path):
    """some format of the user's"""
    d = pd.read_csv(path, sep=';', names=['counts', 'extra'])
    return d


def user_laptop(path):
    d = pd.read_csv(path, sep=';', names=['rgrav', 'mine'])
    return d


def many_bgm(paths, scale):
    out = []
    for p in paths:
        d = user_bgm(p)
        out.append(pd.DataFrame({'counts': d['counts'], 'extra': d['extra'], 'rgrav': scale*d['counts']}))
    return pd.concat(out, ignore_index=True)


def many_laptop(paths):
    return pd.concat([user_laptop(p) for p in paths], ignore_index=True)


def user_nav(lines, talker):
    """some format of the user's: lon lat posix after the talker"""
    rows = [line.split(talker)[1].split(';') for line in lines if talker in line]
    return (np.array([float(r[1]) for r in rows]), np.array([float(r[2]) for r in rows]),
            [datetime.fromtimestamp(float(r[3]), timezone.utc) for r in rows])


def user_nav_lat_first(lines, talker):
    """another format of the user's: lat lon posix after the talker"""
    lon, lat, time = user_nav(lines, talker)
    return lat, lon, time


# --------------------------------------------------------------------------
# the navigation frame
# --------------------------------------------------------------------------
def dateline(lon):
    """minority side of the dateline moved by a whole turn; isolated jumps between neighbours replaced"""
    lon = np.array(lon)
    if not np.any(np.abs(lon[1:] - lon[:-1]) > 1):
        return lon
    east = np.sum(lon > 0)
    west = np.sum(lon < 0)
    if east > west:
        new = np.where(lon < 0, lon + 360, lon)
    else:
        new = np.where(lon > 0, lon - 360, lon)
    jumps = np.where(np.abs(new[1:] - new[:-1]) > 1)[0]
    if len(jumps) % 2 == 0:
        for i in jumps[::2]:
            new[i+1] = (new[i] + new[i+2])/2
    return new


def nav(paths, talker, parse, decimate=0):
    t, lon, lat = np.array([]), np.array([]), np.array([])
    step = decimate if decimate else 1
    for p in paths:
        with open(p) as f:
            lines = np.array(f.readlines())
        x, y, stamps = parse(lines, talker)
        if len(stamps) == 0:
            return -999
        t = np.append(t, np.array([s.timestamp() for s in stamps])[::step])
        lon = np.append(lon, x[::step])
        lat = np.append(lat, y[::step])
    first = np.unique(t, return_index=True)[1]
    return pd.DataFrame({'time_sec': t[first], 'lon': dateline(lon[first]), 'lat': lat[first],
                         'stamps': [datetime.fromtimestamp(e, timezone.utc) for e in t[first]]})


def after_another(f, a, ka, b, kb):
    """the second of two calls"""
    f(*a, **ka)
    return f(*b, **kb)
