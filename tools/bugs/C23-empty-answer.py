PROP = 'C23'
NEEDS = 'an empty answer (just Enter) at a pause'
BREAKS = 'pressing Enter at a pause ends the run'
EDITS = [
    ('DT_Module.py', "        if inChar == 'q':", "        if inChar in 'q':"),
]
