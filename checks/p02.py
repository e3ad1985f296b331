"""UFHeuristic: terminates on every syndrome, well-formed estimates, recovers isolated errors exactly. Exploration: cpp/p02.cpp"""
import cppcheck

cppcheck.define(
    globals(), "p02", "core_mc",
    'every parity check matrix with <=5 columns and <=3 rows, every achievable syndrome, 4 growth variants, first 4 random decisions enumerated; repetition / ring / Hamming / Shor / toric codes with all low-weight errors; random-looking fixed matrices; single and pairs of errors on the shipped lifted-product codes',
    assumes=['std::random_device / uniform_int_distribution / high_resolution_clock are replaced at compile time by an enumerating chooser (compiler -include, no change to the sources)'],
    thorough_bounds='as quick with <=6 columns x <=4 rows, weight 3-4 errors, first 6 decisions',
    tmp=False)
