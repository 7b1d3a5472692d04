"""Registry of property modules."""
from . import ref, hist, conc, num, drv, lin, ship, rep

PROPS = {}
for c in (hist.C01, hist.C02, hist.C03, hist.C04, hist.C12, conc.C05, conc.C06, num.C09, num.C10, num.C11, drv.C07, drv.C08, drv.C14, lin.C13, ship.C15, ship.C16, rep.C17):
    c.METHODS = getattr(c, "METHODS", ref.ALL)
    PROPS[c.ID] = c
