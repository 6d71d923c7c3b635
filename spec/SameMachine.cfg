SPECIFICATION Spec
CONSTANTS
    THREADS = {1, 2, 3}
    QUESTIONS = {1, 2, 3}
    MOODS = {0, 1}
INVARIANTS C22_OneAnswer C22_Never_Refused
