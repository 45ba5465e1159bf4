#!/usr/bin/env python3
"""Builds the framework once (checks rebuild what they need from /repo's current tree)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import base, features, memory
base.build_vh()
base.build_apps()
base.build_served()
memory.build_all()
features.build_all()
