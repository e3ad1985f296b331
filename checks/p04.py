"""two-sided decoding is the pair of the one-sided decodings. Exploration: cpp/p04.cpp"""
import cppcheck

cppcheck.define(
    globals(), "p04", "core_mc",
    'all orthogonal pairs (Hx,Hz) with <=3 qubits and <=2 rows, all X and Z error patterns, both decoders, all growth variants; CSS families with all weight<=1 X/Z syndromes',
    assumes=['std::random_device / uniform_int_distribution / high_resolution_clock are replaced at compile time by an enumerating chooser (compiler -include, no change to the sources)'],
    thorough_bounds='as quick with <=4 qubits, weight<=2 syndromes',
    tmp=False)
