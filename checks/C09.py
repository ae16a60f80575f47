"""Reduction always yields a canonical reachability form."""
from symx.api import *
from symx.gen import *
import rfcommon

HARNESSES = rfcommon.reduce_harnesses("C09")
ASSUMPTIONS = ["floating point numbers are treated as reals", "row sums of the input deviate from 1 by at most 4e-10 (what the constructor accepts) in the -noise harnesses, 0 elsewhere"]
