"""Assumed interface of the (absent) dependency: see /verif/DESIGN.md, "assumed contracts"."""


class EstimateNoiserBase(object):
    pass
