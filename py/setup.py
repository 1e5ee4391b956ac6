#!/usr/bin/env python3
"""Builds the drivers once, so that the checks only rebuild what changed."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import runner, ex_pred
for f in (lambda: runner.build('eager'), lambda: runner.build('updater'), lambda: runner.build('transformer'), ex_pred.build):
    try: print(f())
    except runner.BuildError as e: print('does not build:', str(e)[-800:])
