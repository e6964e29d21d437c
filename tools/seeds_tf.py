SEEDS = [
 dict(id='C01-open-end-tie', property='C01',
  edits=[('nilmtk/timeframe.py', """            if other.end is None:
                end = self.end
            elif self.end is None:
                end = other.end
            else:
                end = min(self.end, other.end)
""", """            if self.end is None:
                end = other.end
            elif other.end is None and self.start is None:
                end = None
            elif other.end is None:
                end = self.end
            else:
                end = min(self.end, other.end)
""")],
  needs='intersecting a frame with no start but an end with a frame that has no end',
  breaks='the intersection loses the bound on its end',
  demo="""
import pandas as pd
from nilmtk.timeframe import TimeFrame
a = TimeFrame(None, pd.Timestamp('2014-01-05'))
b = TimeFrame(pd.Timestamp('2014-01-01'), None)
r = a.intersection(b)
assert r.start == pd.Timestamp('2014-01-01') and r.end == pd.Timestamp('2014-01-05'), r
r = b.intersection(a)
assert r.start == pd.Timestamp('2014-01-01') and r.end == pd.Timestamp('2014-01-05'), r
"""),
 dict(id='C02-split-remainder', property='C02',
  edits=[('nilmtk/timeframe.py', """            if timeframe.end <= allowed_end:
                yield timeframe
                break
""", """            if timeframe.end <= allowed_end + duration_threshold_td / 4:
                yield timeframe
                break
""")],
  needs='a frame whose length exceeds a multiple of the threshold by less than a quarter of it',
  breaks='the last piece is longer than the allowed duration',
  demo="""
import pandas as pd
from nilmtk.timeframe import TimeFrame
t = TimeFrame(pd.Timestamp('2014-01-01 00:00:00'), pd.Timestamp('2014-01-01 00:00:21'))
ps = list(t.split(10))
assert all(p.timedelta.total_seconds() <= 10 for p in ps), ps
assert ps[0].start == t.start and ps[-1].end == t.end
"""),
 dict(id='C02-merge-chain', property='C02',
  edits=[('nilmtk/timeframe.py', """        if timeframe.adjacent(merged[-1], gap):
            merged[-1] = timeframe.union(merged[-1])
        else:
            merged.append(timeframe)
""", """        previous = merged[-1]
        if timeframe.adjacent(previous, gap):
            if previous.timedelta < timeframe.timedelta:
                previous = timeframe
            merged[-1] = TimeFrame(merged[-1].start, previous.end
                                   if previous is timeframe else
                                   max(previous.end, timeframe.end)
                                   if gap == 0 else timeframe.end - timedelta(seconds=0)
                                   if timeframe.end - previous.end > timedelta(seconds=gap)
                                   else previous.end)
        else:
            merged.append(timeframe)
""")],
  needs='merging with a gap allowance where the next frame ends within the allowance of the previous one',
  breaks='time covered by a short trailing frame is lost when merging with a gap',
  demo="""
import pandas as pd
from nilmtk.timeframe import TimeFrame, merge_timeframes
T = lambda s: pd.Timestamp('2014-01-01') + pd.Timedelta(seconds=s)
m = merge_timeframes([TimeFrame(T(0), T(10)), TimeFrame(T(11), T(12))], gap=5)
assert m == [TimeFrame(T(0), T(12))], m
"""),
 dict(id='C03-group-early-stop', property='C03',
  edits=[('nilmtk/timeframegroup.py', """                if not intersect.empty:
                    new_tfg.append(intersect)
""", """                if not intersect.empty:
                    new_tfg.append(intersect)
                elif other_timeframe.start >= self_timeframe.end or new_tfg and \\
                        new_tfg[-1].end == self_timeframe.end:
                    break
""")],
  needs='a frame of the first group ending where an earlier common stretch ended, with more common time later',
  breaks='common time after such a frame is not reported',
  demo="""
import pandas as pd
from nilmtk.timeframe import TimeFrame
from nilmtk.timeframegroup import TimeFrameGroup
T = lambda s: pd.Timestamp('2014-01-01') + pd.Timedelta(seconds=s)
# members are given out of order in the second group
g = TimeFrameGroup([TimeFrame(T(0), T(10))])
h = TimeFrameGroup([TimeFrame(T(20), T(30)), TimeFrame(T(5), T(8))])
r = g.intersection(h)
assert list(r) == [TimeFrame(T(5), T(8))], r
"""),
]
