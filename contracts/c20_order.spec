# C20: nothing depends on the order of maps, on time or on chance. Listed are
# the functions which may: the one waiting for signals, the ones under trusted
# contracts (pointmap's search visits everything and what it finds is one of
# types registered; mmap and walkLeaves are decided by the bounded check) and
# what they consist of.
ordered [C20] main.main main.main$1 stypes.pointmap.iterate stypes.pointmap.iterate$1 stypes.pointmap.each stypes.pointmap.each$1 stypes.pointmap.find stypes.pointmap.find$1 container.mmap container.walkLeaves
