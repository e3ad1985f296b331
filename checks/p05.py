"""GF(2) linear algebra against brute force. Exploration: cpp/p05.cpp"""
import cppcheck

cppcheck.define(
    globals(), "p05", "core_mc",
    'all matrices with rows*cols<=16 (<=5x5) with all vectors; 40 fixed matrices up to 14x14; all products of small matrices',
    assumes=[],
    thorough_bounds='as quick with rows*cols<=20, 400 fixed matrices',
    tmp=False)
