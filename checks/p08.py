"""Monte Carlo driver: reported rates are the counted fraction. Exploration: cpp/p08.cpp"""
import cppcheck

cppcheck.define(
    globals(), "p08", "core_mc",
    'every outcome of every noise coin for 1-2 runs, 1-2 noise rates, codes with 3-4 qubits, both decoders, controlled clock for the runtimes',
    assumes=['std::random_device / uniform_int_distribution / high_resolution_clock are replaced at compile time by an enumerating chooser (compiler -include, no change to the sources)'],
    thorough_bounds='as quick with 3 runs and larger codes',
    tmp=True)
