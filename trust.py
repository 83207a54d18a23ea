"""What the proofs take for granted, and the level each property is claimed at."""
BASE = [
    'pyvc (this directory): the symbolic semantics of the Python subset, its loop summaries and the numpy/stdlib models in pyvc/lib.py, pyvc/etree.py',
    'z3 and cvc5',
    'the 2-to-3 translation of /opt/vp/py2/py2compat.py, which is also what the repository runs under',
]
ASSUME = [
    'floating-point arithmetic (float32 and float64) is treated as exact real arithmetic, decimal literals as exact decimals; the monitor compares real runs with a tolerance',
    'pow and log10 are uninterpreted except for the lemmas named in the scenarios',
    'numpy, xml.etree, minidom, struct, gzip and the file system behave as their models in pyvc/lib.py (trusted, not verified)',
    'dropped from the extracted code: docstrings and the arguments of print statements',
    'arguments meet the preconditions named in the property text',
]
EXTRA = {}
BOUNDED = {
    'C17': 'parameter values, texts, table sizes and index maps are arbitrary; matrix sizes (3x3 to 4x4), the number of per-channel parameter sets (up to 3), of descriptions (2) and the shapes of lists and groups (5) are enumerated',
    'C19': 'writing covers any list of any nodes under any features; reading back covers lists of one node of each kind, reading errors nine documents',
    'C20': 'feature sets are arbitrary; the documents are all those of one element at up to two levels of groups, and of two or three elements from the listed kinds; the list may hold nodes before',
    'C18': 'matrix arrays: 3, 4 and 5 columns (rows, values and the other array shapes are unbounded); nested text loops the engine cannot summarise are left to the monitor',
    'C25': 'writing is proved for any resolution and contents (1 to 4 channels); reading for any numbers in spi1d, spi3d and csp files of the sizes and layouts listed in proofs/files.py, and csp preluts of 2 to 4 knots covering one range (the others monitored); text the printed-number model cannot compare is left to the monitor',
    'C27': 'any image size and contents, any list; images of 3 or 4 channels (1, 3 or 4 when read or written) and the listed depth combinations; the packing of half floats, OpenImageIO and the process pool are assumed by contract and monitored',
    'C29': 'option values are arbitrary, which options are given is enumerated; convertOCIOtoCLF: up to two colour spaces a side and three nodes a transform (more monitored); optparse and PyOpenColorIO are models',
    'C14': 'numeric composition of concrete lists is also monitored',
}
LEVEL = {}
for _p in ('C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25 C26 C27 C28 C29').split(): LEVEL[_p] = 'proof'
NOTE = {}
