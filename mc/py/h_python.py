import sys
import numpy as np
import mlio
import pymc, worlds, values, bridges, sched, package
import logging
logging.getLogger("mlio").addHandler(logging.NullHandler())


def make_suites(tier):
    th = tier == "thorough"
    ws = worlds.all_worlds()
    out = []
    # The first two choices split a world into cases.
    depth = 8 if th else 6
    out.append(pymc.Suite("C24/objects", "all histories of making, using and dropping objects that share memory", len(ws),
                          lambda c, i: worlds.run(c, ws[i], depth), lambda i: ws[i].name, bound=depth))
    out += values.suites(tier, pymc.Suite) + bridges.suites(tier, pymc.Suite)
    return out + sched.suites(tier, pymc.Suite) + package.suites(tier, pymc.Suite)


pymc.main("python", make_suites)
