#!/usr/bin/env python3
"""setup_cmd: nothing to compile ahead of time; checks that the tools are there and the package builds"""
import sys
from vf import build
print("package at", build.package(print))
import z3
print("z3", z3.get_version_string())
