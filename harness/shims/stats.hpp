// Stand-in: see csv.hpp.
