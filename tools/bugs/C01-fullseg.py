PROP = 'C01'
NEEDS = 'a rewrite pass whose survivors exactly fill the segments (count a non-zero multiple of the segment length), then an append'
BREAKS = 'after such a pass the next append overwrites the last segment from its start instead of opening a new one'
EDITS = [('SegmentedArrayPair_Module.py',
"""        outSA = self.out_segmented_array

        return self.first_not_full_segment[outSA]*self.segment_length + self.first_available_offset[outSA]
""",
"""        outSA = self.out_segmented_array

        nLast = self.first_available_offset[outSA]
        if nLast == 0 and self.first_not_full_segment[outSA] > 0:
            nLast = self.segment_length
        return self.first_not_full_segment[outSA]*self.segment_length + nLast
"""),
('SegmentedArrayPair_Module.py',
"""        self.first_available_offset[theSA] = offset+1

        return
""",
"""        self.first_available_offset[theSA] = (offset+1) % self.segment_length if seg > 0 else offset+1

        return
"""),
]
DEMO = '''
import sys
import numpy as np
from SegmentedArrayPair_Module import SegmentedArrayPair_C
dt = np.dtype([('x', 'f8'), ('k', 'i4')])
s = SegmentedArrayPair_C(3, dt)
for i in range(7):
    s.push_back((i + 0.5, i))
# keep the first 6 of 7
n, a, o = s.init_inout_loop()
ip = kept = 0
while isinstance(a, np.ndarray):
    for j in range(n):
        if a[j]['k'] == 6:
            continue
        if ip == 3:
            o = s.get_next_out_segment(); ip = 0
        o[ip] = a[j]; ip += 1; kept += 1
    n, a = s.get_next_segment('in')
s.set_number_of_items('out', kept)
s.push_back((9.5, 9))
got = [int(s[i]['k']) for i in range(s.get_number_of_items())]
print(got)
sys.exit(0 if got == [0, 1, 2, 3, 4, 5, 9] else 1)
'''
