import textchecks, targetchecks, triplechecks, updatechecks, historychecks, contentchecks

CHECKS = dict(textchecks.CHECKS)
CHECKS.update(targetchecks.CHECKS)
CHECKS.update(triplechecks.CHECKS)
CHECKS.update(updatechecks.CHECKS)
CHECKS.update(historychecks.CHECKS)
CHECKS.update(contentchecks.CHECKS)
