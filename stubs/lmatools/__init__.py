"""Stand-in for the parts of lmatools that glmtools imports.

lmatools is not installed here.  This package supplies the same names with the
behaviour glmtools relies on: coroutine plumbing, time framing, grid set-up,
point counting, the GOES-R fixed grid coordinate system, and the file
collection base class.  It is part of the harness, not of the code under test.
"""
