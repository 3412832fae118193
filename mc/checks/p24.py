"""GPS and UTC time"""
import importlib
import os
import time
from datetime import datetime, timedelta, timezone

import numpy as np

from mc.core import Check
from resippy.utils import time_utils

CHECK = Check('P24', 'GPS and UTC time', [
    'times from the GPS epoch (1980-01-06) to 2040 around every leap second and on a grid, in 8 time zones; positions inside of an inserted second are not claimed',
    'the IERS table of leap seconds up to 2017 is written out in the check'])

# first UTC second after each inserted leap second
LEAPS = ['1981-07-01', '1982-07-01', '1983-07-01', '1985-07-01', '1988-01-01', '1990-01-01', '1991-01-01', '1992-07-01', '1993-07-01', '1994-07-01',
         '1996-01-01', '1997-07-01', '1999-01-01', '2006-01-01', '2009-01-01', '2012-07-01', '2015-07-01', '2017-01-01']
EPOCH = datetime(1980, 1, 6)
ZONES = ['UTC', 'America/New_York', 'Europe/London', 'Asia/Kolkata', 'Pacific/Auckland', 'Pacific/Kiritimati', 'Africa/Monrovia', 'XYZ+11:45']


def posix(d):
    return (d - datetime(1970, 1, 1)) / timedelta(seconds=1)


POINTS = [posix(datetime.strptime(s, '%Y-%m-%d')) for s in LEAPS]


def gps_of(utc):
    return utc - posix(EPOCH) + sum(1 for p in POINTS if utc >= p)


def module(zone):
    os.environ['TZ'] = zone
    time.tzset()
    return importlib.reload(time_utils)


def restore():
    os.environ.pop('TZ', None)
    time.tzset()
    importlib.reload(time_utils)


OFFS = [-86400.0 * 40, -86400.0, -43200.0, -7200.0, -3600.0, -60.0, -30.0, -20.0, -19.0, -18.5, -18.0, -17.0, -16.0, -13.0, -5.0, -2.0, -1.0, -0.5, -0.001, -1e-4, -4e-6,
        0.0, 4e-6, 1e-4, 0.001, 0.5, 1.0, 2.0, 16.0, 17.0, 18.0, 19.0, 30.0, 3600.0, 7200.0, 43200.0, 50000.0, 86400.0, 86400.0 * 40]


def check_at(c, m, utc):
    g = gps_of(utc)
    got = c.op('utc to gps', m.utc_timestamp_to_gps_timestamp, utc)
    c.same(float(got), float(g), 'GPS time of UTC %r' % utc, rtol=0, atol=1e-6)
    back = c.op('gps to utc', m.gps_timestamp_to_utc_timestamp, g)
    c.same(float(back), float(utc), 'UTC time of GPS %r' % g, rtol=0, atol=1e-6)
    wk, sec = c.op('week', m.utc_timestamp_to_gps_week_and_seconds, utc)
    c.require(0 <= sec < 604800 + 2e-5, 'seconds of week %r', sec)
    c.require(wk == int(wk), 'week %r', wk)
    c.same(float(wk * 604800 + sec), float(g), 'week and seconds of UTC %r' % utc, rtol=0, atol=2e-5)
    if abs(g / 604800.0 - round(g / 604800.0)) * 604800 > 2e-5:
        c.require(wk == g // 604800, 'week of UTC %r is %r', utc, wk)


@CHECK.scenario(bound=(9, 9))
def leap_seconds(c):
    """the seconds around each leap second and the week ends, in every time zone of the process"""
    z = c.choose('zone', ZONES)
    k = c.choose('leap second', list(range(len(LEAPS))))
    try:
        m = module(z)
        for o in OFFS:
            if POINTS[k] + o >= posix(EPOCH):
                check_at(c, m, POINTS[k] + o)
    finally:
        restore()


@CHECK.scenario(bound=(9, 9))
def grid(c):
    """every fifth day from 1980 to 2040 at different times of day; order and kind of number do not matter"""
    z = c.choose('zone', ZONES)
    year = c.choose('year', list(range(1980, 2041)))
    try:
        m = module(z)
        d = datetime(year, 1, 1, 12) if year > 1980 else datetime(1980, 1, 6)
        last = None
        n = 0
        while d.year == year:
            utc = posix(d)
            check_at(c, m, utc)
            g = m.utc_timestamp_to_gps_timestamp(utc)
            c.require(last is None or g > last, 'GPS time goes back at %s', d)
            last = g
            d += timedelta(days=5, hours=1, minutes=7, seconds=13, microseconds=250000)
            n += 1
        utc = posix(datetime(year, 12, 31, 23, 59, 30))
        for t in (np.float64(utc), int(utc)):
            check_at(c, m, t)
    finally:
        restore()


@CHECK.scenario(bound=(9, 9))
def weeks(c):
    """week boundaries: every 7 days of GPS time"""
    z = c.choose('zone', ZONES[:3])
    block = c.choose('weeks', list(range(0, 3000, 250)))
    try:
        m = module(z)
        for w in range(block, block + 250):
            for s in (0.0, 1.0, 100000.1234, 302400.0, 604799.0):
                g = w * 604800 + s
                # UTC of that GPS time from the table
                n = 0
                for p in POINTS:
                    if g >= p - posix(EPOCH) + n + 1:
                        n += 1
                utc = g + posix(EPOCH) - n
                wk, sec = c.op('week', m.utc_timestamp_to_gps_week_and_seconds, utc)
                if s == 0.0 and not (wk == w and abs(sec) < 2e-5):
                    c.require(wk == w - 1 and sec > 604800 - 2e-5, 'GPS week %d starts with week %r, second %r', w, wk, sec)
                    c.require(False, 'GPS week %d starts with week %r, second %r', w, wk, sec)
                c.require(wk == w and abs(sec - s) < 2e-5, 'GPS week %d, second %s came out as %r, %r', w, s, wk, sec)
    finally:
        restore()
