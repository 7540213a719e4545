#!/usr/bin/python3
"""check.py <property> [--replay FILE]; see DESIGN.md"""
import os, sys
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import core
from engine_props import ENGINE_PROPS
from cache_props import CACHE_PROPS
from api_props import API_PROPS
from app_props import APP_PROPS

PROPS = {**ENGINE_PROPS, **CACHE_PROPS, **API_PROPS, **APP_PROPS}

if __name__ == "__main__":
    sys.exit(core.main(PROPS, sys.argv))
