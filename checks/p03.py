"""Decoder objects: results do not depend on the history of the object. Exploration: cpp/p03.cpp"""
import cppcheck

cppcheck.define(
    globals(), "p03", "core_mc",
    'all histories of <=5 operations (setCode to any of the codes, setGrowth, decode of any syndrome, reset) of one decoder object, for both decoders; the reference is a pristine object in a forked pristine process',
    assumes=['std::random_device / uniform_int_distribution / high_resolution_clock are replaced at compile time by an enumerating chooser (compiler -include, no change to the sources)'],
    thorough_bounds='as quick with <=6 operations',
    tmp=False)
