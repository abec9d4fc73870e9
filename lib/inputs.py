"""The system as the program reads it from generated files."""
import os
import shutil

import system

NAMES = (
    "QTR NORR NFCST NOAREA PKLOAD FU MINRAN MAXRAN INHBT1 INHBT2 BN SUSTAT FCTERR CAPCON CAPOWN NOGEN PROBG DERATE "
    "JENT INTCH INTCHR LP LINENO PROBL BLPA MXCRIT JCRIT RATES ID HRLOAD MAXHR DYLOAD MAXDAY WPEAK MXPLHR JPLOUT "
    "ITAB NLS IOI IOJ KVLOC KVSTAT KVTYPE KVWHEN KWHERE CVTEST MAXEUE JSTEP JFREQ FINISH INTV INTVT NR NAMA"
).split()

_count = [0]


def load(spec, change=None):
    """Writes the files, lets the program read them, returns what it made of them by name.

    change(dir) may edit the files in between.
    """
    from reliabilityassessment.data_processing.dataf1 import dataf1

    _count[0] += 1
    d = os.path.abspath("in%d" % _count[0])
    try:
        system.write(spec, d)
        if change:
            change(d)
        res = dataf1([d, os.path.join(d, "LEEI")])
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if len(res) != len(NAMES):
        raise RuntimeError("number of results of dataf1")
    return dict(zip(NAMES, res))
