"""union-find forest: all histories of Union/Find calls against a reference partition. Exploration: cpp/p07.cpp"""
import cppcheck

cppcheck.define(
    globals(), "p07", "core_mc",
    'all histories of union/find operations: 2 nodes depth 4, 3/5, 4/4, 5/4, 6/3, with every (n<=4) or 4 (n>=5) check/bit labellings; all orders of path and star edges for 8 nodes',
    assumes=[],
    thorough_bounds='2/6, 3/7, 4/6, 5/5, 6/4, 7/4; 9 nodes',
    tmp=False)
