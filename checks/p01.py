"""UFDecoder: every estimate reproduces the syndrome. Exploration: cpp/p01.cpp"""
import cppcheck

cppcheck.define(
    globals(), "p01", "core_mc",
    'every parity check matrix with <=4 columns and <=3 rows (up to row order), every achievable syndrome, every growth variant, the first 4 random decisions of a run enumerated and later ones on a fair schedule; repetition, ring, Hamming, Shor, toric L<=5 and fixed dense matrices with all / all low-weight syndromes; the codes in /repo/examples/test',
    assumes=['std::random_device / uniform_int_distribution / high_resolution_clock are replaced at compile time by an enumerating chooser (compiler -include, no change to the sources)', 'a run of more than 200000 random decisions on the fair schedule counts as non-termination'],
    thorough_bounds='as quick with <=5 columns x <=4 rows, all row orders up to 4x3, first 6 decisions',
    tmp=False)
