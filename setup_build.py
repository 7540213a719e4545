#!/usr/bin/python3
"""setup_cmd: builds what the checks need from /repo's working tree (each check rebuilds by itself if the tree has changed)"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import esim, psim, pybuild

print("engine simulator:", esim.build_engine())
print("python package:", pybuild.build_package())
print("preloaded library:", psim.build_preload())
