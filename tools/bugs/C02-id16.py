PROP = 'C02'
NEEDS = 'a particle unique ID above 32767 in a 2-D C++ store'
BREAKS = 'the unique ID is truncated to 16 bits when a tuple is appended'
EDITS = [
    ('cpp/Pstruct.h', 'unique_ID_ = p[12].cast<int>();', 'unique_ID_ = p[12].cast<short>();', 2),
]
