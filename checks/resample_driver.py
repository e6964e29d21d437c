"""Clocks whose bins of 1, 2, 3, 4 or 6 units align with whole hours."""
import pandas as pd

from tf_driver import Clock

RCLOCKS = [
    (pd.Timestamp('2014-05-01 00:00:00'), 1),
    (pd.Timestamp('2014-03-30 00:00:00', tz='Europe/London'), 300),
    (pd.Timestamp('2013-11-03 00:00:00', tz='US/Eastern'), 300),
    (pd.Timestamp('2012-12-31 23:00:00', tz='UTC'), 60),
    (pd.Timestamp('2014-10-26 00:00:00', tz='UTC').tz_convert('Europe/London'), 60),
    (pd.Timestamp('2014-05-01 00:00:00', tz='Asia/Kolkata'), 10),
]


class RClock(Clock):
    def __init__(self, i):
        self.base, self.unit = RCLOCKS[i % len(RCLOCKS)]
