#!/usr/bin/env python3
"""Builds the fact extractor and warms the translation-unit cache (the checks do both on demand as well)."""
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "sa"))
import facts
facts.ensure_tool()
try:
    db = facts.load(["VirtualRobot/*.cpp", "VirtualRobot/*/*.cpp", "VirtualRobot/*/*/*.cpp", "MotionPlanning/*/*.cpp", "MotionPlanning/*.cpp", "GraspPlanning/*.cpp",
                     "GraspPlanning/*/*.cpp", "SimDynamics/*.cpp", "SimDynamics/*/*.cpp", "SimDynamics/*/*/*.cpp"])
    print("translation units:", len(db.tus), "functions:", len(db.funcs))
except facts.Broken as e:
    print("cache not warmed:", e)
