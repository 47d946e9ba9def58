# seeded changes that the check of their property does not report (all others are reported)
CAUGHT = {}
