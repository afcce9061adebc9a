#!/usr/bin/env python3
"""builds the front-end plugin and checks that /repo can be read"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'engine'))
import frontend
P = frontend.load()
print('front end ready: %d functions, %d records' % (len(P.funcs), len(P.records)))
