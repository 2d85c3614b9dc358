import json
import os
import zlib
from typing import NamedTuple


class BufferSizeInfo(NamedTuple):
    active_size: int
    buffer_size: int


def _lim():
    return int(os.environ.get('VT_BUF_MOD', '8').split('+')[0])


def _add():
    """'M+A': every figure is larger by A."""
    return int((os.environ.get('VT_BUF_MOD', '8') + '+0').split('+')[1])


RULE = ('from_year', 'to_year', 'in_month', 'on_day_of_week', 'on_day_of_month', 'at_seconds', 'at_time_suffix',
        'delta_seconds', 'letter')
ERA = ('offset_seconds', 'era_delta_seconds', 'format', 'until_year', 'until_month', 'until_day', 'until_seconds',
       'until_time_suffix')


def canon(zone_info):
    """The documented fields only, so that additional keys do not matter."""
    eras = []
    for e in zone_info['eras']:
        p = e['zone_policy']
        eras.append([[e[k] for k in ERA], p and [p['name'], [[r[k] for k in RULE] for r in p['rules']]]])
    return [zone_info['name'], eras]


def digest(zone_info):
    return zlib.crc32(json.dumps(canon(zone_info)).encode('utf-8'))


def terminal_start(zone_info):
    """Smallest year T such that every year >= T is a terminal year."""
    last = 1000
    for era in zone_info['eras']:
        if era['until_year'] < 10000:
            last = max(last, era['until_year'])
        policy = era['zone_policy']
        if policy:
            for r in policy['rules']:
                for k in ('from_year', 'to_year'):
                    if -10000 < r[k] < 10000:
                        last = max(last, r[k])
    return last + 1


def sizes(dig, term, year):
    # stable from term+2 on: exactly the contract of a terminal year with a
    # three-year window around `year`
    y = min(year, term + 2)
    h = zlib.crc32(b'%d:%d' % (dig, y))
    h ^= h >> 15
    # skewed low so that the maximum is reached rarely, at a specific year
    a = 1 + (h & 0xffff) % _lim()
    b = 1 + (h >> 16) % _lim()
    return min(a, b) + _add(), max(1, (a * b) // _lim()) + _add()


class ZoneProcessor:
    def __init__(self, zone_info, *args, **kwargs):
        self.zone_info = zone_info
        self._dig = digest(zone_info)
        self._term = terminal_start(zone_info)
        self._year = None

    def init_for_year(self, year):
        self._year = year

    def get_buffer_sizes(self):
        if self._year is None:
            raise RuntimeError('get_buffer_sizes() before init_for_year()')
        a, b = sizes(self._dig, self._term, self._year)
        return BufferSizeInfo(a, b)

    def is_terminal_year(self, year):
        return year >= self._term
